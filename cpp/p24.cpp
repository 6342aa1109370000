// All schedules (up to a preemption bound) of small sets of threads that use one storage. The storage operations are the real ones;
// outcomes must be those of some sequential order; ThreadSanitizer watches every schedule for data races.
// usage: p24 SCRATCH KIND(mem|file|tar) BOUND PROGRAM...    program: threads separated by '/', operations are single characters
#include "s.hpp"
#include "vsched.h"
#include <flatdata/flatdata.h>
#include <boost/filesystem.hpp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <thread>
#include <unistd.h>
#include <sys/stat.h>

namespace fs = boost::filesystem;
using namespace flatdata;

static std::string scratch, kind, current;
static std::map< std::string, std::string > base;   // files of the existing archive

static std::string show( n::A a ) { return std::to_string( a.x ) + "," + std::to_string( a.y ); }
template < typename V > static std::string show_vec( const V& v ) { if ( !v ) return "-"; std::string r = "["; for ( auto e : v ) r += show( e ) + ";"; return r + "]"; }
struct ShowMv { std::string& r; void operator( )( n::A a ) { r += show( a ) + ";"; } void operator( )( n::B b ) { r += std::to_string( b.z ) + ";"; } };
static std::string show_arc( const n::Arc& a )
{
    if ( !a.is_open( ) ) return "closed";
    std::string r = show( a.i( ) ) + " " + show_vec( a.v( ) ) + " " + ( a.o( ) ? show_vec( *a.o( ) ) : "none" ) + " {";
    for ( size_t i = 0; i < a.m( ).size( ); i++ ) { a.m( ).for_each( i, ShowMv{ r } ); r += "|"; }
    return r + "} " + std::string( a.r( ).char_ptr( ), a.r( ).size_in_bytes( ) ) + " " + show_vec( a.s( ).v( ) );
}

static void fill( n::ArcBuilder& b, unsigned seed )
{
    Struct< n::A > i;
    ( *i ).x = seed; ( *i ).y = 7;
    b.set_i( *i );
    auto v = b.start_v( );
    for ( unsigned k = 0; k < 3; k++ ) { auto e = v.grow( ); e.x = seed + k; e.y = k; }
    v.close( );
    auto m = b.start_m( );
    for ( unsigned k = 0; k < 2; k++ ) { auto l = m.grow( ); l.add< n::A >( ).x = seed; l.add< n::B >( ).z = k; }
    m.close( );
    std::string raw = "raw" + std::to_string( seed );
    b.set_r( MemoryDescriptor( raw.data( ), raw.size( ) ) );
    auto s = b.s( );
    Vector< n::A > sv( 2 );
    sv[ 1 ].x = seed;
    s.set_v( sv );
}

static std::shared_ptr< ResourceStorage > fresh( )
{
    if ( kind == "mem" )
    {
        std::shared_ptr< MemoryResourceStorage > s( MemoryResourceStorage::create( ) );
        for ( auto& f : base )
        {
            if ( f.first.find( '/' ) != std::string::npos ) s->create_directory( f.first.substr( 0, f.first.find( '/' ) ).c_str( ) );
            s->assign_value( f.first.c_str( ), MemoryDescriptor( f.second.data( ), f.second.size( ) ) );
        }
        return s;
    }
    if ( kind == "file" )
    {
        const std::string d = scratch + "/a";
        fs::remove_all( d );
        fs::create_directory( d );
        for ( auto& f : base )
        {
            if ( f.first.find( '/' ) != std::string::npos ) fs::create_directories( fs::path( d + "/" + f.first ).parent_path( ) );
            FILE* o = fopen( ( d + "/" + f.first ).c_str( ), "wb" );
            fwrite( f.second.data( ), 1, f.second.size( ), o );
            fclose( o );
        }
        return FileResourceStorage::open( d.c_str( ) );
    }
    return TarArchiveResourceStorage::create( ( scratch + "/a.tar" ).c_str( ) );
}

static std::string octal( unsigned long long v, int n ) { char b[ 32 ]; snprintf( b, 32, "%0*llo", n, v ); return b; }
static void write_tar( )
{
    std::string out;
    for ( const auto& f : base )
    {
        std::string h( 512, 0 );
        h.replace( 0, f.first.size( ), f.first );
        h.replace( 124, 11, octal( f.second.size( ), 11 ) );
        h[ 156 ] = '0'; h.replace( 257, 5, "ustar" );
        h.replace( 148, 8, "        " );
        unsigned sum = 0; for ( unsigned char c : h ) sum += c;
        h.replace( 148, 6, octal( sum, 6 ) ); h[ 154 ] = 0; h[ 155 ] = ' ';
        out += h + f.second + std::string( ( 512 - f.second.size( ) % 512 ) % 512, 0 );
    }
    std::ofstream( scratch + "/a.tar", std::ios::binary ) << out << std::string( 1024, 0 );
}

// one operation of thread t on the shared storage; everything it writes is named after the thread
static std::string run_op( char op, int t, ResourceStorage& s, std::shared_ptr< ResourceStorage > shared )
{
    const std::string own( 1, (char)( 'a' + t ) );
    const char* schema = "schema";
    switch ( op )
    {
    case 'w':  // external vector
    {
        auto v = s.create_external_vector< n::A >( ( own + "w" ).c_str( ), schema );
        for ( int k = 0; k < 2; k++ ) { auto e = v.grow( ); e.x = 10 * t + k; }
        auto closed = v.close( );
        return show_vec( closed );
    }
    case 'b':  // block of data
    {
        const std::string data = "data of " + own;
        bool ok = s.write< MemoryDescriptor >( ( own + "b" ).c_str( ), schema, MemoryDescriptor( data.data( ), data.size( ) ) );
        auto r = s.read< MemoryDescriptor >( ( own + "b" ).c_str( ), schema );
        return std::string( ok ? "1" : "0" ) + ( r ? std::string( r->char_ptr( ), r->size_in_bytes( ) ) : "-" );
    }
    case 'm':  // multivector
    {
        auto v = s.create_multi_vector< n::_builtin::multivector::IndexType20, n::A, n::B >( ( own + "m" ).c_str( ), schema );
        v.grow( ).add< n::B >( ).z = t;
        auto closed = v.close( );
        std::string r;
        for ( size_t i = 0; i < closed.size( ); i++ ) { closed.for_each( i, ShowMv{ r } ); r += "|"; }
        return r;
    }
    case 'd':  // own directory and a resource in it
    {
        auto d = s.create_directory( ( own + "d" ).c_str( ) );
        if ( !d ) return "null";
        const std::string data = "dir " + own;
        bool ok = d->write< MemoryDescriptor >( "x", schema, MemoryDescriptor( data.data( ), data.size( ) ) );
        auto again = s.directory( ( own + "d" ).c_str( ) );
        if ( !again ) return "lost";
        auto r = again->read< MemoryDescriptor >( "x", schema );
        return std::string( ok ? "1" : "0" ) + ( r ? std::string( r->char_ptr( ), r->size_in_bytes( ) ) : "-" );
    }
    case 'c':  // a directory that several threads create, own resources in it
    {
        auto d = s.create_directory( "common" );
        if ( !d ) return "null";
        const std::string data = "common " + own;
        bool ok = d->write< MemoryDescriptor >( own.c_str( ), schema, MemoryDescriptor( data.data( ), data.size( ) ) );
        auto r = d->read< MemoryDescriptor >( own.c_str( ), schema );
        return std::string( ok ? "1" : "0" ) + ( r ? std::string( r->char_ptr( ), r->size_in_bytes( ) ) : "-" );
    }
    case 'B':  // a whole archive in an own directory
    {
        std::shared_ptr< ResourceStorage > d = s.create_directory( ( own + "B" ).c_str( ) );
        if ( !d ) return "null";
        {
            auto b = n::ArcBuilder::open( d );
            if ( !b.is_open( ) ) return "not open";
            fill( b, 20 + t );
        }
        return show_arc( n::Arc::open( s.directory( ( own + "B" ).c_str( ) ) ) );
    }
    case 'r':  // existing resource
    {
        auto d = s.read_schema( "v" );
        return d ? std::string( d.char_ptr( ), d.size_in_bytes( ) ) : "-";
    }
    case 'R':  // existing resource of a directory
    {
        auto d = s.directory( "s" );
        if ( !d ) return "null";
        auto r = d->read_schema( "v" );
        return r ? std::string( r.char_ptr( ), r.size_in_bytes( ) ) : "-";
    }
    case 'e': return std::string( s.exists( "v" ) ? "1" : "0" ) + ( s.exists( "nothing" ) ? "1" : "0" ) + ( s.exists( "r.schema" ) ? "1" : "0" );
    case 'O': return show_arc( n::Arc::open( shared ) );
    }
    return "?";
}

// what the storage contains afterwards
static std::string final_state( std::shared_ptr< ResourceStorage > s, int threads )
{
    std::string r;
    for ( int t = 0; t < threads; t++ )
    {
        const std::string own( 1, (char)( 'a' + t ) );
        auto w = s->read< ArrayView< n::A > >( ( own + "w" ).c_str( ), "schema" );
        r += w ? show_vec( *w ) : "-";
        auto b = s->read< MemoryDescriptor >( ( own + "b" ).c_str( ), "schema" );
        r += b ? std::string( b->char_ptr( ), b->size_in_bytes( ) ) : "-";
        auto m = s->read< n::Arc::MType >( ( own + "m" ).c_str( ), "schema" );
        if ( m ) for ( size_t i = 0; i < m->size( ); i++ ) m->for_each( i, ShowMv{ r } );
        for ( const char* dir : { "d", "c" } )
        {
            auto d = s->directory( *dir == 'd' ? ( own + "d" ).c_str( ) : "common" );
            auto x = d ? d->read< MemoryDescriptor >( *dir == 'd' ? "x" : own.c_str( ), "schema" ) : boost::none;
            r += x ? std::string( x->char_ptr( ), x->size_in_bytes( ) ) : "-";
        }
        auto d = s->directory( ( own + "B" ).c_str( ) );
        r += d && d->exists( "Arc.archive" ) ? show_arc( n::Arc::open( std::shared_ptr< ResourceStorage >( std::move( d ) ) ) ) : "-";
        r += "/";
    }
    return r + show_arc( n::Arc::open( s ) );
}

typedef std::vector< std::string > Programs;

// all sequential orders of the operations
static void orders( const Programs& p, std::vector< size_t >& pos, std::vector< int >& order, std::set< std::string >& out )
{
    bool any = false;
    for ( size_t t = 0; t < p.size( ); t++ )
        if ( pos[ t ] < p[ t ].size( ) )
        {
            any = true;
            pos[ t ]++; order.push_back( t );
            orders( p, pos, order, out );
            pos[ t ]--; order.pop_back( );
        }
    if ( any ) return;
    auto s = fresh( );
    std::vector< std::string > results( p.size( ) );
    std::vector< size_t > done( p.size( ), 0 );
    for ( int t : order ) results[ t ] += run_op( p[ t ][ done[ t ]++ ], t, *s, s ) + "\n";
    std::string all;
    for ( auto& r : results ) all += r + "\n";
    out.insert( all + final_state( s, p.size( ) ) );
}

static void on_deadlock( )
{
    char d[ 2000 ];
    sched_describe( d, sizeof d );
    printf( "FAIL|%s|deadlock in schedule %s\n", current.c_str( ), d );
    fflush( stdout );
}

static void explore( const std::string& text, int bound )
{
    Programs p;
    std::stringstream in( text );
    std::string one;
    while ( std::getline( in, one, '/' ) ) p.push_back( one );
    current = kind + " " + text + " bound " + std::to_string( bound );
    printf( "CASE|%s\n", current.c_str( ) );
    fflush( stdout );
    std::set< std::string > expected;
    std::vector< size_t > pos( p.size( ), 0 );
    std::vector< int > order;
    orders( p, pos, order, expected );
    for ( auto& e : expected )
        if ( e.find( "null" ) != std::string::npos || e.find( "closed" ) != std::string::npos || e.find( "lost" ) != std::string::npos )
        {
            printf( "FAIL|%s|sequential execution fails\n", current.c_str( ) );
            return;
        }
    sched_reset( bound );
    long schedules = 0;
    std::set< std::string > seen;
    do
    {
        alarm( 60 );
        auto s = fresh( );
        std::vector< std::string > results( p.size( ) );
        sched_begin( p.size( ) );
        std::vector< std::thread > threads;
        for ( size_t t = 0; t < p.size( ); t++ )
            threads.emplace_back( [ &, t ] {
                sched_enter( t );
                for ( char op : p[ t ] ) results[ t ] += run_op( op, t, *s, s ) + "\n";
                sched_leave( );
            } );
        sched_run( );
        for ( auto& t : threads ) t.join( );
        schedules++;
        std::string all;
        for ( auto& r : results ) all += r + "\n";
        all += final_state( s, p.size( ) );
        seen.insert( all );
        char d[ 2000 ];
        sched_describe( d, sizeof d );
        if ( sched_races )
        {
            printf( "FAIL|%s|data race in schedule %s(%s)\n", current.c_str( ), d, "see the report of ThreadSanitizer on stderr" );
            sched_races = 0;
            break;
        }
        if ( !expected.count( all ) )
        {
            for ( char& c : all ) if ( c == '\n' || c == '|' ) c = ' ';
            printf( "FAIL|%s|schedule %sgives what no sequential order gives: %s\n", current.c_str( ), d, all.substr( 0, 400 ).c_str( ) );
            break;
        }
    } while ( sched_next( ) );
    printf( "COUNT|%ld\nKIND|%s %ld\n", schedules, current.c_str( ), schedules );
    printf( "SEEN|%zu of %zu\n", seen.size( ), expected.size( ) );
    fflush( stdout );
}

int main( int argc, char** argv )
{
    scratch = argv[ 1 ];
    sched_on_deadlock = on_deadlock;
    kind = "file";
    {   // the existing archive
        fs::remove_all( scratch + "/base" );
        fs::create_directories( scratch + "/base" );
        auto b = n::ArcBuilder::open( std::shared_ptr< ResourceStorage >( FileResourceStorage::create( ( scratch + "/base" ).c_str( ) ) ) );
        fill( b, 1 );
        for ( fs::recursive_directory_iterator it( scratch + "/base" ), end; it != end; ++it )
            if ( fs::is_regular_file( it->path( ) ) )
            {
                std::ifstream f( it->path( ).string( ), std::ios::binary );
                std::stringstream c; c << f.rdbuf( );
                base[ it->path( ).string( ).substr( scratch.size( ) + 6 ) ] = c.str( );
            }
        write_tar( );
    }
    kind = argv[ 2 ];
    for ( int i = 4; i < argc; i++ ) explore( argv[ i ], atoi( argv[ 3 ] ) );
    fs::remove_all( scratch + "/base" );
    fs::remove_all( scratch + "/a" );
    printf( "COUNT|0\nPOINTS|%ld %ld\n", sched_points, sched_states );
}
