// A multivector of 256 types (the most its one byte type indices can tell apart). compiled with READ=1 or READ=0
#include "many.hpp"
#include <flatdata/MemoryResourceStorage.h>
#include <flatdata/flatdata.h>
#include <cstdio>
#include <cstring>
#include <memory>
#include <string>
#include <utility>
#include <vector>

static int failures = 0;
static long count = 0;
static void fail( const std::string& name, const std::string& msg ) { if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) ); }

// number of the struct: the width of its only field follows from it
static int width_of( int type ) { const int all[] = { 8, 16, 32 }; return 1 + type % all[ type % 3 ]; }
static size_t bytes_of( int type ) { return ( width_of( type ) + 7 ) / 8; }
static uint64_t value_of( int type, int i ) { return ( 0x9E3779B97F4A7C15ull * ( type + 256 * i + 1 ) >> 20 ) & ( ( 1ull << width_of( type ) ) - 1 ); }
static std::string le( uint64_t v, size_t n ) { std::string r; for ( size_t i = 0; i < n; i++ ) r += char( v >> 8 * i ); return r; }

template < typename V > struct TypesOf;
template < template < typename... > class M, typename I, typename... Args > struct TypesOf< M< I, Args... > >
{
    template < typename F, size_t... K > static void each( const F& f, std::index_sequence< K... > ) { const int unused[] = { ( f( K, static_cast< typename Args::AccessorType* >( nullptr ) ), 0 )... }; (void)unused; }
    template < typename F > static void each( const F& f ) { each( f, std::make_index_sequence< sizeof...( Args ) >( ) ); }
};
typedef n::C::MType View;

int main( )
{
    typedef std::vector< std::pair< size_t, uint64_t > > List;
    std::string data, index;
    std::vector< List > items;
    for ( int i = 0; i < 256; i++ )
    {
        index += le( data.size( ), 3 );
        items.emplace_back( );
        for ( int t : { i, 255 - i, ( i + 128 ) % 256 } )
        {
            data += char( t );
            data += le( value_of( t, i ), bytes_of( t ) );
            items.back( ).emplace_back( bytes_of( t ), value_of( t, i ) );
        }
    }
    index += le( data.size( ), 3 );
#if READ
    {
        data += std::string( 8, 'x' ); index += std::string( 8, 'x' );
        const unsigned char* from = reinterpret_cast< const unsigned char* >( index.data( ) );
        const View v( flatdata::ArrayView< n::_builtin::multivector::IndexType20 >( from, from + index.size( ) - 8 ), reinterpret_cast< const unsigned char* >( data.data( ) ) );
        if ( v.size( ) != 256 ) fail( "many read", "has " + std::to_string( v.size( ) ) + " items" );
        for ( int i = 0; i < 256; i++ )
        {
            List out;
            try { v.for_each( i, [ & ]( auto e ) { out.emplace_back( decltype( e )::size_in_bytes( ), uint64_t( e.v ) ); } ); }
            catch ( const std::exception& e ) { fail( "many read", "item of type " + std::to_string( i ) + ": " + e.what( ) ); }
            count++;
            if ( out != items[ i ] ) fail( "many read", "the elements of item " + std::to_string( i ) + " differ" );
        }
    }
#else
    {
        auto storage = flatdata::MemoryResourceStorage::create( );
        auto* memory = storage.get( );
        auto builder = n::CBuilder::open( std::move( storage ) );
        auto m = builder.start_m( );
        for ( int i = 0; i < 256; i++ )
        {
            auto list = m.grow( );
            const std::vector< int > wanted = { i, 255 - i, ( i + 128 ) % 256 };
            for ( int w : wanted )
                TypesOf< View >::each( [ & ]( size_t k, auto* type ) { typedef typename std::remove_pointer< decltype( type ) >::type T; if ( int( k ) == w ) list.template add< T >( ).v = value_of( w, i ); count++; } );
        }
        m.close( );
        const std::string framed = le( data.size( ), 8 ) + data + std::string( 8, 0 ), framed_index = le( index.size( ), 8 ) + index + std::string( 8, 0 );
        const auto got = memory->read_resource( "m" ), got_index = memory->read_resource( "m_index" );
        if ( std::string( got.char_ptr( ), got.size_in_bytes( ) ) != framed ) fail( "many write", "the data differs" );
        if ( std::string( got_index.char_ptr( ), got_index.size_in_bytes( ) ) != framed_index ) fail( "many write", "the index differs" );
    }
#endif
    printf( "COUNT|%ld\nKIND|256 types\n", count );
    return failures != 0;
}
