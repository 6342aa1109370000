// Archives written through the real FileResourceStorage while the process is ended, or writing fails, after a number of bytes.
// usage: crashfiles kill|fail|limit|limitkill SCENARIO STEP PART(0..7) DIR
//   kill: the process ends after k bytes written to files (all write(2)/writev(2) calls together, the last one partial)
//   fail: from then on every write fails with ENOSPC; limit: no file can exceed k bytes (EFBIG); limitkill: SIGXFSZ ends the process
#include "arc_write.h"
#include <boost/filesystem.hpp>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <dlfcn.h>
#include <fstream>
#include <memory>
#include <set>
#include <sys/resource.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

static long budget = -1;   // negative: unlimited
static bool kills = false;
static ssize_t real_write( int fd, const void* p, size_t n )
{
    static ssize_t ( *f )( int, const void*, size_t ) = (ssize_t ( * )( int, const void*, size_t ))dlsym( RTLD_NEXT, "write" );
    return f( fd, p, n );
}
extern "C" ssize_t write( int fd, const void* p, size_t n )
{
    if ( budget < 0 || fd < 3 ) return real_write( fd, p, n );
    const size_t ok = std::min< size_t >( n, budget );
    ssize_t done = ok ? real_write( fd, p, ok ) : 0;
    budget -= ok;
    if ( ok == n ) return done;
    if ( kills ) _exit( 9 );
    if ( ok ) return done; // a short write, the next one fails
    errno = ENOSPC;
    return -1;
}
extern "C" ssize_t writev( int fd, const struct iovec* v, int n )
{
    ssize_t total = 0;
    for ( int i = 0; i < n; i++ )
    {
        if ( !v[ i ].iov_len ) continue;
        const ssize_t k = write( fd, v[ i ].iov_base, v[ i ].iov_len );
        if ( k < 0 ) return total ? total : -1;
        total += k;
        if ( size_t( k ) < v[ i ].iov_len ) break;
    }
    return total;
}

static const std::vector< std::pair< std::vector< std::string >, size_t > > SCENARIOS = {
    { { "inst", "vec", "mv", "raw", "sub/v", "sub/o", "oinst", "ovec", "omv", "oraw", "osub/v", "osub/o" }, 0 },
    { { "osub/o", "osub/+v", "sub/+v", "sub/o", "oraw", "omv", "+ovec", "oinst", "raw", "mv", "+vec", "inst" }, 0 },
    { { "+vec", "mv", "inst" }, 1500 },
    { { "mv", "+ovec", "vec", "raw" }, 45 },
};

namespace fs = boost::filesystem;
static Files read_all( const std::string& d )
{
    Files r;
    for ( fs::recursive_directory_iterator it( d ), end; it != end; ++it )
        if ( fs::is_regular_file( it->path( ) ) )
        {
            std::ifstream f( it->path( ).string( ), std::ios::binary );
            std::stringstream s;
            s << f.rdbuf( );
            r[ it->path( ).string( ).substr( d.size( ) + 1 ) ] = s.str( );
        }
    return r;
}
static bool complete( const Files& files, const Files& full, const std::string& what )
{
    for ( const auto& f : files_of( what ) )
        for ( const auto& g : { f, f + ".schema" } )
        {
            const auto x = files.find( g ), y = full.find( g );
            if ( x == files.end( ) || y == full.end( ) || x->second != y->second ) return false;
        }
    return true;
}

int main( int, char** argv )
{
    const std::string mode = argv[ 1 ], dir = argv[ 5 ];
    const int scenario = atoi( argv[ 2 ] );
    const long step = atol( argv[ 3 ] ), part = atol( argv[ 4 ] );
    const auto& s = SCENARIOS[ scenario ];
    fs::create_directory( dir );
    const std::string d = dir + "/arc", report = dir + "/report";
    signal( SIGXFSZ, SIG_IGN );
    // returns what the child reported: one character per write, empty if it was ended
    auto child = [ & ]( long k ) -> std::string {
        fs::remove_all( d );
        fs::create_directory( d );
        int p[ 2 ];
        if ( pipe( p ) ) _exit( 3 );
        const pid_t pid = fork( );
        if ( !pid )
        {
            if ( mode == "limitkill" ) signal( SIGXFSZ, SIG_DFL );
            struct rlimit core = { 0, 0 };
            setrlimit( RLIMIT_CORE, &core );
            if ( k >= 0 && mode.compare( 0, 5, "limit" ) == 0 ) { struct rlimit l = { rlim_t( k ), rlim_t( k ) }; setrlimit( RLIMIT_FSIZE, &l ); }
            kills = mode == "kill";
            std::string out;
            {
                if ( mode == "kill" || mode == "fail" ) budget = k;
                auto b = n::ArcBuilder::open( flatdata::FileResourceStorage::create( d.c_str( ) ) );
                out += b.is_open( ) ? 'o' : 'x';
                if ( b.is_open( ) )
                    for ( const auto& w : s.first ) out += "ofr"[ write_any( b, w, s.second ) ];
            }
            budget = -1;
            const ssize_t n = real_write( p[ 1 ], out.data( ), out.size( ) );
            _exit( n == ssize_t( out.size( ) ) ? 0 : 4 );
        }
        close( p[ 1 ] );
        std::string out;
        char buf[ 64 ];
        ssize_t n;
        while ( ( n = read( p[ 0 ], buf, 64 ) ) > 0 ) out.append( buf, n );
        close( p[ 0 ] );
        int status;
        waitpid( pid, &status, 0 );
        const bool ended = ( WIFEXITED( status ) && WEXITSTATUS( status ) == 9 ) || ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGXFSZ );
        if ( !ended && !( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 ) ) return "crash";
        return out;
    };
    int failures = 0;
    long count = 0;
    std::set< std::string > kinds;
    std::string name;
    auto fail = [ & ]( const std::string& msg ) { if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) ); };
    name = mode + " " + argv[ 2 ] + " complete";
    if ( child( -1 ) != std::string( s.first.size( ) + 1, 'o' ) ) fail( "writing without faults failed" );
    const Files full = read_all( d );
    long total = 0;
    for ( const auto& f : full ) total = mode.compare( 0, 5, "limit" ) == 0 ? std::max< long >( total, f.second.size( ) ) : total + f.second.size( );
    // the header of external vectors is written twice
    if ( mode.compare( 0, 5, "limit" ) ) total += 8 * 8;
    for ( long k = 0, i = 0; k <= total; k++ )
    {
        if ( k % step && !( k > 8000 && k < 8400 && k % 7 == 0 ) && !( k > total - 60 ) ) continue;
        if ( i++ % 8 != part ) continue;
        name = mode + " " + argv[ 2 ] + " after byte " + std::to_string( k );
        const std::string out = child( k );
        count++;
        if ( out == "crash" ) { fail( "the writing process crashed" ); continue; }
        const Files files = read_all( d );
        n::Arc a = n::Arc::open( flatdata::FileResourceStorage::open( d.c_str( ) ) );
        const std::pair< const char*, bool > got[] = { { "inst", bool( a.inst( ) ) }, { "oinst", bool( a.oinst( ) ) }, { "vec", bool( a.vec( ) ) },
            { "ovec", bool( a.ovec( ) ) }, { "mv", bool( a.mv( ) ) }, { "omv", bool( a.omv( ) ) }, { "raw", bool( a.raw( ) ) },
            { "oraw", bool( a.oraw( ) ) } };
        std::string kind;
        for ( const auto& g : got )
        {
            kind += g.second ? '1' : '0';
            const bool want = complete( files, full, g.first );
            if ( want != g.second ) fail( std::string( g.first ) + ( want ? " is complete, but not accepted" : " is accepted, but not completely written" ) );
        }
        for ( const char* sub : { "sub", "osub" } )
        {
            const bool is = *sub == 's' ? bool( a.sub( ) ) : bool( a.osub( ) );
            kind += is ? '1' : '0';
            const bool want = complete( files, full, std::string( sub ) + "/Sub.archive" ) && complete( files, full, std::string( sub ) + "/v" );
            if ( want != is ) fail( std::string( sub ) + ( want ? " is complete, but not accepted" : " is accepted, but not completely written" ) );
        }
        kinds.insert( kind );
        for ( size_t w = 1; w < out.size( ); w++ )
            if ( out[ w ] == 'o' && !complete( files, full, s.first[ w - 1 ] ) ) fail( s.first[ w - 1 ] + " is reported as written, but is not complete" );
        if ( !out.empty( ) && ( out[ 0 ] == 'o' ) != complete( files, full, "Arc.archive" ) ) fail( "the builder opening is reported wrongly" );
    }
    printf( "COUNT|%ld\n", count );
    for ( const auto& k : kinds ) printf( "KIND|files %s\n", k.c_str( ) );
    fs::remove_all( dir );
    return failures != 0;
}
