// A uniform view of the structs of containers.flatdata: put( element, i ) writes the i-th value, get( element ) reads back a comparable text
#pragma once
#include "c.hpp"
#include "arc_map.h"
#include <flatdata/flatdata.h>
#include <cstdio>
#include <set>
#include <string>
#include <vector>

static int failures = 0;
static long count = 0;
static void fail( const std::string& name, const std::string& msg ) { if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) ); }
static int finish( const std::set< std::string >& kinds )
{
    printf( "COUNT|%ld\n", count );
    for ( const auto& k : kinds ) printf( "KIND|%s\n", k.c_str( ) );
    return failures != 0;
}

typedef std::vector< int64_t > Val;
// value number i of a struct: 0 is all zero, 1 all ones, others mixed
static uint64_t mix( uint64_t i, uint64_t k ) { return i == 0 ? 0 : i == 1 ? ~0ull : ( i * 0x9E3779B97F4A7C15ull + k * 0xC2B2AE3D27D4EB4Full ) ^ ( i << 7 ); }
static uint64_t ub( uint64_t v, int w ) { return w == 64 ? v : v & ( ( 1ull << w ) - 1 ); }
static int64_t sb( uint64_t v, int w ) { v <<= 64 - w; return int64_t( v ) >> ( 64 - w ); }

template < typename T > struct Codec;
#define CODEC( T, ... ) template < > struct Codec< n::T > { static const char* name( ) { return #T; } __VA_ARGS__ };
CODEC( A, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 7 ) ), sb( mix( i, 2 ), 9 ), int64_t( ub( mix( i, 3 ), 1 ) ), sb( mix( i, 4 ), 30 ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.a = v[ 0 ]; m.b = v[ 1 ]; m.c = v[ 2 ]; m.d = v[ 3 ]; }
    static Val get( n::A m ) { return { m.a, m.b, m.c, m.d }; } )
CODEC( B, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 3 ) ), int64_t( mix( i, 2 ) ), sb( mix( i, 3 ), 61 ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.x = v[ 0 ]; m.y = uint64_t( v[ 1 ] ); m.z = v[ 2 ]; }
    static Val get( n::B m ) { return { m.x, int64_t( uint64_t( m.y ) ), m.z }; } )
CODEC( E, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 8 ) ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.v = v[ 0 ]; }
    static Val get( n::E m ) { return { m.v }; } )
CODEC( W, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 20 ) ), sb( mix( i, 2 ), 4 ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.v = v[ 0 ]; m.s = v[ 1 ]; }
    static Val get( n::W m ) { return { m.v, m.s }; } )
CODEC( Z, static Val val( uint64_t i ) { return { int64_t( mix( i, 1 ) ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.v = uint64_t( v[ 0 ] ); }
    static Val get( n::Z m ) { return { int64_t( uint64_t( m.v ) ) }; } )
CODEC( R, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 20 ) ), int64_t( ub( mix( i, 2 ), 4 ) ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.first = v[ 0 ]; m.v = v[ 1 ]; }
    static Val get( n::R m ) { return { m.first, m.v }; } )
CODEC( Q, static Val val( uint64_t i ) { return { int64_t( ub( mix( i, 1 ), 3 ) ), int64_t( ub( mix( i, 2 ), 17 ) ), int64_t( ub( mix( i, 3 ), 12 ) ), int64_t( mix( i, 4 ) ) }; }
    template < typename M > static void put( M m, const Val& v ) { m.v = v[ 0 ]; m.start = v[ 1 ]; m.w = v[ 2 ]; m.y = uint64_t( v[ 3 ] ); }
    static Val get( n::Q m ) { return { m.v, m.start, m.w, int64_t( uint64_t( m.y ) ) }; } )

static std::string text( const Val& v ) { std::string r = "("; for ( auto x : v ) r += std::to_string( x ) + " "; return r + ")"; }
static std::string text( const std::vector< Val >& v ) { std::string r; for ( const auto& x : v ) r += text( x ); return "[" + r + "]"; }

// multivector m: elements of 4 types
typedef std::vector< std::pair< int, Val > > Item;
typedef std::vector< Item > Items;
struct Collect
{
    Item& out;
    void operator( )( n::A e ) { out.emplace_back( 0, Codec< n::A >::get( e ) ); }
    void operator( )( n::B e ) { out.emplace_back( 1, Codec< n::B >::get( e ) ); }
    void operator( )( n::E e ) { out.emplace_back( 2, Codec< n::E >::get( e ) ); }
    void operator( )( n::W e ) { out.emplace_back( 3, Codec< n::W >::get( e ) ); }
};
template < typename T, typename L > static bool add_as( L& l, Item& m, int type, uint64_t i )
{
    auto e = l.template add< T >( );
    if ( Codec< T >::get( e ) != Codec< T >::val( 0 ) ) return false;
    if ( i ) Codec< T >::put( e, Codec< T >::val( i ) );
    m.emplace_back( type, Codec< T >::val( i ) );
    return true;
}
// adds value i of a type to a list and to its model; false: the new element was not zero
template < typename L > static bool add( L& l, Item& m, int type, uint64_t i )
{
    return type == 0 ? add_as< n::A >( l, m, 0, i ) : type == 1 ? add_as< n::B >( l, m, 1, i ) : type == 2 ? add_as< n::E >( l, m, 2, i ) : add_as< n::W >( l, m, 3, i );
}
static std::string text( const Item& l ) { std::string r = "{"; for ( const auto& e : l ) r += "ABEW"[ e.first ] + text( e.second ); return r + "}"; }
// all lists of up to n types
static std::vector< std::vector< int > > lists( size_t n, int types )
{
    std::vector< std::vector< int > > r = { { } };
    for ( size_t k = 0, from = 0; k < n; k++ )
    {
        const size_t to = r.size( );
        for ( size_t i = from; i < to; i++ ) for ( int t = 0; t < types; t++ ) { auto l = r[ i ]; l.push_back( t ); r.push_back( l ); }
        from = to;
    }
    return r;
}
// calls f with every sequence of n numbers below m whose number modulo parts is part
template < typename F > static void sequences( size_t n, size_t m, size_t part, size_t parts, F&& f )
{
    std::vector< size_t > s( n, 0 );
    for ( size_t number = 0;; number++ )
    {
        if ( number % parts == part ) f( s );
        size_t k = n;
        while ( k && s[ k - 1 ] == m - 1 ) s[ --k ] = 0;
        if ( !k ) return;
        s[ k - 1 ]++;
    }
}
