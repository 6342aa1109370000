// Values of generated structures: compared, copied, hashed, converted, printed. Reads the values from a file (see values.py).
#include "values.hpp"
#include <flatdata/flatdata.h>
#include <flatdata/Copy.h>
#include <flatdata/Hash.h>
#include <flatdata/Struct.h>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::vector< int64_t > Value;
template < typename A > struct Of;
static std::vector< std::vector< std::pair< Value, std::string > > > all_values; // per structure: value, its bytes
static std::vector< std::vector< std::string > > texts;
static std::vector< std::vector< Value > > present;
static std::vector< std::string > names, schemas;
static std::vector< size_t > sizes;
static long count = 0;
static int failures = 0;
static void fail( const std::string& name, const std::string& msg ) { if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) ); }
static std::string show( const Value& v ) { std::string r; for ( int64_t x : v ) r += " " + std::to_string( x ); return r; }
static std::string hex( const unsigned char* p, size_t n ) { std::string r; char b[ 4 ]; for ( size_t i = 0; i < n; i++ ) { snprintf( b, 4, "%02x", p[ i ] ); r += b; } return r; }

// memory of one structure with its padding at its end, so that reading behind it is noticed
struct Memory
{
    std::unique_ptr< unsigned char[] > all;
    unsigned char* at;
    size_t size;
    unsigned char garbage;
    Memory( size_t size, size_t shift, unsigned char garbage ) : all( new unsigned char[ shift + size + 8 ] ), at( all.get( ) + shift ), size( size ), garbage( garbage )
    {
        memset( all.get( ), garbage, shift + size + 8 );
        memset( at, 0, size );
    }
    bool intact( ) const { for ( size_t i = 0; i < 8; i++ ) if ( at[ size + i ] != garbage ) return false; for ( const unsigned char* p = all.get( ); p < at; p++ ) if ( *p != garbage ) return false; return true; }
};

#define EXPECT( what, condition ) { count++; if ( !( condition ) ) return fail( name, what ); }

// structures with a range cannot be used standalone
template < typename A, bool = A::IS_OVERLAPPING_WITH_NEXT > struct Standalone { static void run( const std::string&, const Value&, const std::string& ) { } };
template < typename A > struct Standalone< A, false >
{
    static void run( const std::string& name, const Value& v, const std::string& bytes )
    {
        typedef typename A::MutatorType M;
        flatdata::Struct< A > s, other;
        const flatdata::Struct< A >& c = s;
        for ( size_t i = 0; i < bytes.size( ); i++ ) EXPECT( "a new Struct is not zero", ( *s ).data( )[ i ] == 0 )
        EXPECT( "two new Structs differ", *c == *static_cast< const flatdata::Struct< A >& >( other ) )
        Of< A >::set( *s, v );
        EXPECT( "Struct: its bytes are " + hex( ( *c ).data( ), bytes.size( ) ), !memcmp( ( *c ).data( ), bytes.data( ), bytes.size( ) ) )
        EXPECT( "Struct: reads differently", Of< A >::get( *c ) == v && Of< A >::get( M( *s ) ) == v )
        flatdata::Struct< A > copy( s );
        EXPECT( "the copy of a Struct differs", *copy == *s && Of< A >::get( A( *copy ) ) == v )
        other = copy;
        Of< A >::set( *copy, Value( v.size( ), 0 ) );
        EXPECT( "the copy of a Struct is not independent", Of< A >::get( A( *other ) ) == v && Of< A >::get( A( *s ) ) == v )
        flatdata::copy_struct( *copy, *c );
        EXPECT( "copying to a Struct", *copy == *s )
    }
};

template < typename A > static void pairs( size_t k, const std::vector< Memory >& memory, const std::vector< Memory >& again )
{
    typedef typename A::MutatorType M;
    const auto& values = all_values[ k ];
    std::unordered_set< size_t > hashes;
    for ( size_t i = 0; i < values.size( ); i++ )
        for ( size_t j = 0; j < values.size( ); j++ )
        {
            const std::string name = names[ k ] + show( values[ i ].first ) + " and" + show( values[ j ].first );
            const A a( memory[ i ].at ), b( again[ j ].at );
            const M m( memory[ i ].at ), n( again[ j ].at );
            const bool same = values[ i ].first == values[ j ].first;
            EXPECT( "== gives " + std::to_string( !same ), ( a == b ) == same && ( b == a ) == same && ( m == n ) == same )
            EXPECT( "!= gives " + std::to_string( same ), ( a != b ) != same && ( b != a ) != same && ( m != n ) != same )
            EXPECT( "a mutable and a constant structure compare differently", ( A( m ) == b ) == same )
            if ( same ) EXPECT( "equal structures have different hashes", flatdata::Hash( )( a ) == flatdata::Hash( )( b ) && flatdata::Hash( )( a ) == flatdata::Hash( )( n ) )
            EXPECT( "both a < b and b < a", !( a < b && b < a ) && !( a < a ) )
            EXPECT( "< differs from that of the only field", values[ i ].first.size( ) > 1 || ( a < b ) == ( values[ i ].first < values[ j ].first ) )
            Memory target( sizes[ k ], 1, 0x5A );
            memcpy( target.at, again[ j ].at, sizes[ k ] );
            flatdata::copy_struct( M( target.at ), i % 2 ? a : A( m ) );
            EXPECT( "copying gives " + hex( target.at, sizes[ k ] ), !memcmp( target.at, memory[ i ].at, sizes[ k ] ) && A( target.at ) == a )
            EXPECT( "copying changes memory around the structure", target.intact( ) )
        }
    // as keys
    std::unordered_set< A, flatdata::Hash > keys;
    for ( auto& mem : { &memory, &again } ) for ( auto& x : *mem ) keys.insert( A( x.at ) );
    const std::string name = names[ k ] + " keys";
    EXPECT( "a set of all values twice has " + std::to_string( keys.size( ) ) + " elements", keys.size( ) == values.size( ) )
    for ( size_t i = 0; i < values.size( ); i++ ) EXPECT( "a value is not found", keys.count( A( memory[ i ].at ) ) == 1 )
}

template < typename A > static void one( size_t k, size_t i, const Memory& mem )
{
    typedef typename A::MutatorType M;
    const Value& v = all_values[ k ][ i ].first;
    const std::string& bytes = all_values[ k ][ i ].second;
    const std::string name = names[ k ] + show( v );
    EXPECT( "its bytes are " + hex( mem.at, sizes[ k ] ) + " instead of " + hex( ( const unsigned char* )bytes.data( ), bytes.size( ) ), !memcmp( mem.at, bytes.data( ), bytes.size( ) ) )
    EXPECT( "memory around it changed", mem.intact( ) )
    M m( mem.at );
    const A a( mem.at ), from = m;
    EXPECT( "reads as" + show( Of< A >::get( a ) ), Of< A >::get( a ) == v )
    EXPECT( "the mutable structure reads as" + show( Of< A >::get( m ) ), Of< A >::get( m ) == v )
    EXPECT( "the converted structure reads as" + show( Of< A >::get( from ) ), Of< A >::get( from ) == v && from == a )
    EXPECT( "fields are present:" + show( Of< A >::present( a ) ), Of< A >::present( a ) == present[ k ][ i ] && Of< A >::present( m ) == present[ k ][ i ] )
    EXPECT( "data", a.data( ) == mem.at && m.data( ) == mem.at && from.data( ) == mem.at )
    EXPECT( "prints " + a.to_string( ), a.to_string( ) == texts[ k ][ i ] && m.to_string( ) == texts[ k ][ i ] )
    EXPECT( "describes itself as " + a.describe( ), a.describe( ) == "Structure of size " + std::to_string( sizes[ k ] ) && m.describe( 7 ) == a.describe( ) )
    EXPECT( "is not there", bool( a ) && bool( m ) )
    A empty, copy( a );
    M none;
    EXPECT( "a structure without data is there", !empty && !none && !A( none ) && empty.data( ) == nullptr )
    EXPECT( "describes a missing structure as " + empty.describe( ), empty.describe( ) == "Uninitialized Structure " + names[ k ] && none.describe( ) == empty.describe( ) )
    empty = a;
    EXPECT( "a copied view", empty == a && empty.data( ) == a.data( ) && copy.data( ) == a.data( ) )
    Standalone< A >::run( name, v, bytes );
}

template < typename A > static void run( size_t k )
{
    typedef typename A::MutatorType M;
    std::vector< Memory > memory, again;
    const std::string name = names[ k ];
    EXPECT( "has " + std::to_string( A::size_in_bytes( ) ) + " bytes", A::size_in_bytes( ) == sizes[ k ] && M::size_in_bytes( ) == sizes[ k ] )
    EXPECT( "is named " + A::name( ), A::name( ) == names[ k ] && M::name( ) == names[ k ] )
    EXPECT( "its schema is " + A::schema( ), A::schema( ) == schemas[ k ] && M::schema( ) == schemas[ k ] )
    for ( size_t i = 0; i < all_values[ k ].size( ); i++ )
    {
        memory.emplace_back( sizes[ k ], i % 3, 0xFF );
        again.emplace_back( sizes[ k ], ( i + 1 ) % 4, 0x00 );
        Of< A >::set( M( memory[ i ].at ), all_values[ k ][ i ].first );
        memset( again[ i ].at, 0xFF, sizes[ k ] );  // what was there before
        flatdata::copy_struct( M( again[ i ].at ), A( memory[ i ].at ) );
        Of< A >::set( M( again[ i ].at ), all_values[ k ][ i ].first );
        one< A >( k, i, memory[ i ] );
        one< A >( k, i, again[ i ] );
    }
    pairs< A >( k, memory, again );
}

#include "values_of.h"

int main( int, char** argv )
{
    std::ifstream in( argv[ 1 ] );
    std::string line;
    // S name size number-of-schema-bytes, schema; V values | present | bytes in hex | number of bytes of text, text
    while ( std::getline( in, line ) )
    {
        std::istringstream ss( line );
        std::string what;
        ss >> what;
        if ( what == "S" )
        {
            std::string name; size_t size, n;
            ss >> name >> size >> n;
            names.push_back( name ); sizes.push_back( size );
            std::string s( n, 0 );
            in.read( &s[ 0 ], n ); in.get( );
            schemas.push_back( s );
            all_values.emplace_back( ); texts.emplace_back( ); present.emplace_back( );
        }
        else
        {
            size_t fields, n; std::string bytes, word;
            ss >> fields;
            Value v( fields ), p( fields );
            for ( auto& x : v ) ss >> x;
            for ( auto& x : p ) ss >> x;
            ss >> word >> n;
            for ( size_t i = 0; i < word.size( ); i += 2 ) bytes += char( std::stoi( word.substr( i, 2 ), nullptr, 16 ) );
            std::string s( n, 0 );
            in.read( &s[ 0 ], n ); in.get( );
            all_values.back( ).emplace_back( v, bytes ); texts.back( ).push_back( s ); present.back( ).push_back( p );
        }
    }
    all( std::stoul( argv[ 2 ] ), std::stoul( argv[ 3 ] ) );
    printf( "COUNT %ld\n", count );
    return failures != 0;
}
