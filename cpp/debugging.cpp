// P40: what the debugging aids of the C++ library tell (see checks/P40.py). Compiled with DEBUG_DATA_ACCESS_STATISTICS.
// argv: directory; standard input: one history per line, each runs in a process of its own, the statistics go to directory/N
#include "d.hpp"
#include <flatdata/flatdata.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
#include <thread>

using namespace n;
static uint64_t value( int field, uint64_t k ) { return ( k + 1 ) * 0x9E3779B97F4A7C15ull * ( field + 1 ) >> 3; }
static const size_t NS = 600, NU = 456, NR = 830;

template < typename V > static void fill_s( V&& s, size_t k ) { s.a = value( 0, k ) & 0xff; s.b = value( 1, k ) & 0xffffffff; s.c = value( 2, k ); s.d = value( 3, k ) & 15; s.e = int16_t( value( 4, k ) % 4096 ) - 2048; }
template < typename V > static void fill_u( V&& u, size_t k ) { u.p = value( 5, k ) & 15; u.q = value( 6, k ); u.r = value( 7, k ) & 15; }

static bool write( std::unique_ptr< flatdata::ResourceStorage > storage )
{
    auto b = ABuilder::open( std::move( storage ) );
    if ( !b.is_open( ) ) return false;
    flatdata::Vector< S > s( NS );
    for ( size_t i = 0; i < NS; i++ ) fill_s( s[ i ], i );
    flatdata::Vector< U > u( NU );
    for ( size_t i = 0; i < NU; i++ ) fill_u( u[ i ], i );
    flatdata::Vector< R > r( NR + 1 );      // and the end of the last range
    for ( size_t i = 0; i <= NR; i++ ) { r[ i ].first = 3 * i; r[ i ].x = value( 8, i ) & 0xff; r[ i ].o = i % 2 ? 0xffff : i; }
    flatdata::Struct< S > one;
    fill_s( *one, 1000 );
    bool ok = b.set_s( s ) && b.set_u( u ) && b.set_r( r ) && b.set_one( *one ) && b.set_raw( flatdata::MemoryDescriptor( "some raw data", 13 ) );
    auto sub = b.sub( );
    flatdata::Vector< U > z( 3 );
    for ( size_t i = 0; i < 3; i++ ) fill_u( z[ i ], i );
    return ok && sub.set_z( z );
}

template < typename E > static std::string read_s( E s, char f )
{
    switch ( f ) { case 'a': return std::to_string( unsigned( s.a ) ); case 'b': return std::to_string( uint32_t( s.b ) ); case 'c': return std::to_string( uint64_t( s.c ) );
        case 'd': return std::to_string( unsigned( s.d ) ); default: return std::to_string( int16_t( s.e ) ); }
}
template < typename E > static std::string read_u( E u, char f ) { return f == 'p' ? std::to_string( unsigned( u.p ) ) : f == 'q' ? std::to_string( uint64_t( u.q ) ) : std::to_string( unsigned( u.r ) ); }
template < typename E > static std::string read_r( E r, char f )
{
    if ( f == 'x' ) return std::to_string( unsigned( r.x ) );
    if ( f == 'f' ) return std::to_string( uint32_t( r.first ) );
    if ( f == 'o' ) { boost::optional< uint16_t > o = r.o; return o ? std::to_string( *o ) : "none"; }
    std::pair< uint32_t, uint32_t > p = r.run;
    return std::to_string( p.first ) + "-" + std::to_string( p.second );
}
static std::string read( const A& a, const std::string& op )
{
    size_t k = op.size( ) > 2 ? std::stoul( op.substr( 1, op.size( ) - 2 ) ) : 0;
    char f = op.back( );
    switch ( op[ 0 ] )
    {
    case 's': return read_s( a.s( )[ k ], f );
    case 'u': return read_u( a.u( )[ k ], f );
    case 'r': return read_r( a.r( )[ k ], f );
    case 'i': return read_s( a.one( ), f );
    default: return read_u( a.sub( ).z( )[ k ], f );
    }
}

struct Handle
{
    std::shared_ptr< flatdata::ResourceStorage > storage;
    A archive;
};

static int run( const std::string& mode, std::istringstream& ops, const std::string& dir )
{
    std::vector< Handle > stack;
    std::shared_ptr< flatdata::ResourceStorage > memory;
    if ( mode == "mem" )
    {
        memory = flatdata::MemoryResourceStorage::create( );
        if ( !write( memory->create_directory( "x" ) ) ) return 3;
    }
    std::string op, results;
    while ( ops >> op )
    {
        if ( op == "O" )
        {
            std::shared_ptr< flatdata::ResourceStorage > s = mode == "mem" ? std::shared_ptr< flatdata::ResourceStorage >( memory->directory( "x" ) )
                                                                          : std::shared_ptr< flatdata::ResourceStorage >( flatdata::FileResourceStorage::create( ( dir + "/data" ).c_str( ) ) );
            A a = A::open( s );
            if ( !a.is_open( ) ) return 4;
            stack.push_back( Handle{ s, a } );
        }
        else if ( op == "C" ) stack.push_back( stack.back( ) );
        else if ( op == "x" ) stack.pop_back( );
        else if ( op == "L" ) { new Handle( stack.back( ) ); if ( mode == "mem" ) new std::shared_ptr< flatdata::ResourceStorage >( memory ); }
        else if ( op == "c" ) flatdata::DebugDataAccessStatistics::clear( );
        else if ( op[ 0 ] == 'm' )
        {
            flatdata::Struct< S > local;
            fill_s( *local, 7 );
            results += read_s( *local, op[ 1 ] ) + " ";
        }
        else if ( op.find( '|' ) != std::string::npos )
        {
            std::vector< std::thread > threads;
            std::istringstream parts( op );
            std::string part;
            std::vector< std::string > out( 16 );
            size_t n = 0;
            while ( std::getline( parts, part, '|' ) ) { std::string* o = &out[ n++ ]; threads.emplace_back( [ &stack, part, o ] { *o = read( stack.back( ).archive, part ); } ); }
            for ( auto& t : threads ) t.join( );
            for ( size_t i = 0; i < n; i++ ) results += out[ i ] + " ";
        }
        else results += read( stack.back( ).archive, op ) + " ";
    }
    std::cerr << "RESULTS " << results << std::endl;
    stack.clear( );
    return 0;
}

static void dumps( std::istringstream& in, const std::string& dir )
{
    // lengths of the vector and the raw data, the seed of the bytes
    size_t nu, nraw, first;
    in >> nu >> nraw >> first;
    std::string raw;
    for ( size_t i = 0; i < nraw; i++ ) raw += char( first + i );
    auto build = [ & ]( std::unique_ptr< flatdata::ResourceStorage > storage ) {
        auto b = DBuilder::open( std::move( storage ) );
        if ( !b.is_open( ) ) return false;
        flatdata::Vector< U > u( nu );
        for ( size_t i = 0; i < nu; i++ ) fill_u( u[ i ], i );
        return b.set_u( u ) && b.set_raw( flatdata::MemoryDescriptor( raw.data( ), raw.size( ) ) ) && b.sub( ).set_z( u );
    };
    std::shared_ptr< flatdata::MemoryResourceStorage > memory = flatdata::MemoryResourceStorage::create( );
    if ( !build( memory->create_directory( "x" ) ) || !build( flatdata::FileResourceStorage::create( ( dir + "/dump" ).c_str( ) ) ) ) { std::cerr << "NOT WRITTEN" << std::endl; return; }
    for ( int when = 0; when < 2; when++ )
    {
        for ( int schemas = 0; schemas < 2; schemas++ )
        {
            auto t = memory->hexdump( schemas );
            std::cerr << "DUMP hex " << when << " " << schemas << " " << t.size( ) << "\n" << t;
            t = memory->bindump( schemas );
            std::cerr << "DUMP bin " << when << " " << schemas << " " << t.size( ) << "\n" << t;
        }
        std::shared_ptr< flatdata::ResourceStorage > s( memory->directory( "x" ) );
        auto d = D::open( s );
        if ( !d.is_open( ) ) std::cerr << "NOT OPEN" << std::endl;
    }
    std::cerr << "DUMP end" << std::endl;
}

int main( int argc, char** argv )
{
    const std::string dir = argv[ 1 ];
    if ( argc > 2 ) return write( flatdata::FileResourceStorage::create( ( dir + "/data" ).c_str( ) ) ) ? 0 : 1;
    std::string line;
    for ( long i = 0; std::getline( std::cin, line ); i++ )
    {
        const pid_t pid = fork( );
        if ( pid == 0 )
        {
            const int fd = open( ( dir + "/" + std::to_string( i ) ).c_str( ), O_CREAT | O_WRONLY | O_TRUNC, 0600 );
            dup2( fd, 2 );
            std::istringstream in( line );
            std::string mode;
            in >> mode;
            if ( mode == "dump" ) { dumps( in, dir ); exit( 0 ); }
            exit( run( mode, in, dir ) );
        }
        int status = 0;
        waitpid( pid, &status, 0 );
        std::cout << status << std::endl;
    }
    return 0;
}
