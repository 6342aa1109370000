// P36: reads archives with huge (sparse) resources. stdin: "open dir|tar PATH", "size R", "at R I", "item I", "raw I", "end".
#include "large.hpp"
#include <flatdata/flatdata.h>
#include <flatdata/TarArchiveResourceStorage.h>
#include <iostream>
#include <set>
#include <sstream>

static std::string show( n::B e ) { return std::to_string( uint64_t( e.x ) ); }
static std::string show( n::T e ) { return std::to_string( uint64_t( e.x ) ) + "," + std::to_string( uint64_t( e.y ) ); }
static std::string show( n::W e ) { return std::to_string( uint64_t( e.x ) ) + "," + std::to_string( int64_t( e.y ) ); }
static std::string show( n::L e )
{
    return std::to_string( uint64_t( e.a ) ) + "," + std::to_string( uint64_t( e.b ) ) + "," + std::to_string( uint64_t( e.c ) ) + "," + std::to_string( uint64_t( e.d ) ) + "," + std::to_string( int64_t( e.e ) );
}

static std::string same( const std::vector< std::string >& forms )
{
    std::set< std::string > distinct( forms.begin( ), forms.end( ) );
    if ( distinct.size( ) == 1 ) return forms[ 0 ];
    std::string r = "differs by the way of access:";
    for ( const auto& f : forms ) r += " " + f;
    return r;
}

template < typename V >
std::string at( const V& v, size_t i )
{
    const size_t n = v.size( );
    auto it = v.begin( );
    it += i;
    auto last = v.end( );
    last -= n - i;
    std::vector< std::string > forms{ show( v[ i ] ), show( *( v.begin( ) + i ) ), show( v.begin( )[ i ] ), show( *it ), show( *last ), show( *( v.end( ) - ( n - i ) ) ), show( v.slice( i, 1 )[ 0 ] ), show( v.slice( 0, n )[ i ] ),
                                       show( v.skip( i ).front( ) ), show( v.skip_last( n - i - 1 ).back( ) ), show( v.slice_before( i + 1 ).back( ) ), show( v.slice_after( i )[ 0 ] ), show( v.slice( { i, n } )[ 0 ] ) };
    if ( size_t( it - v.begin( ) ) != i || size_t( v.end( ) - last ) != n - i || !( it == last ) || it < last || v.skip( i ).size( ) != n - i || v.slice( i, 1 ).size( ) != 1 || v.slice( 1, n - 1 ).size( ) != n - 1 ) forms.push_back( "positions" );
    return same( forms );
}

template < typename V >
std::string size( const V& v )
{
    return std::to_string( v.size( ) ) + " " + std::to_string( v.size_in_bytes( ) ) + ( size_t( v.end( ) - v.begin( ) ) == v.size( ) ? "" : " by iterators " + std::to_string( v.end( ) - v.begin( ) ) );
}

struct Print
{
    std::string& out;
    template < typename T > void add( const char* name, T e ) { out += std::string( out.empty( ) ? "" : " " ) + name + show( e ); }
    void operator( )( n::B e ) { add( "B", e ); }
    void operator( )( n::W e ) { add( "W", e ); }
    void operator( )( n::L e ) { add( "L", e ); }
};

template < typename M >
std::string item( const M& m, size_t i )
{
    std::string each, all, by_type;
    m.for_each( i, Print{ each } );
    std::string only_b, only_w, only_l;
    m.template for_each< n::B >( i, Print{ only_b } );
    m.template for_each< n::W >( i, Print{ only_w } );
    m.template for_each< n::L >( i, Print{ only_l } );
    std::string b, w, l;
    for ( auto it = m.template iterator< n::B >( i ); it.valid( ); ++it ) Print{ b }( *it );
    for ( auto it = m.template iterator< n::W >( i ); it.valid( ); ++it ) Print{ w }( *it );
    for ( auto it = m.template iterator< n::L >( i ); it.valid( ); ++it ) Print{ l }( *it );
    return only_b == b && only_w == w && only_l == l && b.size( ) + w.size( ) + l.size( ) + ( each.empty( ) ? 0 : !b.empty( ) + !w.empty( ) + !l.empty( ) - 1 ) == each.size( ) ? each : "differs: " + each + " / " + b + " / " + w + " / " + l;
}

int main( )
{
    std::string line;
    n::A a;
    while ( std::getline( std::cin, line ) )
    {
        std::istringstream in( line );
        std::string op, r;
        in >> op >> r;
        std::string out;
        size_t i = 0;
        if ( op == "open" )
        {
            std::string path;
            in >> path;
            a = n::A( );
            std::shared_ptr< flatdata::ResourceStorage > storage;
            if ( r == "tar" ) storage = flatdata::TarArchiveResourceStorage::create( path.c_str( ) ); else storage = flatdata::FileResourceStorage::create( path.c_str( ) );
            a = n::A::open( std::move( storage ) );
            out = a.is_open( ) ? "open" : "closed";
        }
        else if ( op == "size" )
        {
            if ( r == "b" ) out = size( a.b( ) );
            if ( r == "t" ) out = size( a.t( ) );
            if ( r == "w" ) out = size( a.w( ) );
            if ( r == "l" ) out = size( a.l( ) );
            if ( r == "m" ) out = std::to_string( a.m( ).size( ) );
            if ( r == "r" ) out = std::to_string( a.r( ).size_in_bytes( ) );
        }
        else if ( op == "at" )
        {
            in >> i;
            if ( r == "b" ) out = at( a.b( ), i );
            if ( r == "t" ) out = at( a.t( ), i );
            if ( r == "w" ) out = at( a.w( ), i );
            if ( r == "l" ) out = at( a.l( ), i );
            if ( r == "m" ) out = item( a.m( ), i );
            if ( r == "r" ) out = std::to_string( a.r( ).data( )[ i ] );
        }
        std::cout << out << std::endl;
    }
}
