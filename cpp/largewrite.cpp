// P36: writes one huge resource. usage: largewrite KIND PATH COUNT LO HI ... (bytes of the payload are zero but in [LO, HI))
#include "large.hpp"
#include <flatdata/flatdata.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <sys/mman.h>
#include <vector>

static std::vector< std::pair< uint64_t, uint64_t > > windows;
static unsigned char value( uint64_t p ) { return ( p * 0x9E3779B97F4A7C15ull >> 40 ) % 255 + 1; }
static bool fill( unsigned char* bytes, uint64_t p, size_t n )
{
    bool any = false;
    for ( const auto& w : windows )
        for ( uint64_t q = std::max( p, w.first ); q < std::min( p + n, w.second ); q++ ) { bytes[ q - p ] = value( q ); any = true; }
    return any;
}
template < typename T, typename E >
static void set( E&& e, uint64_t p )
{
    unsigned char bytes[ 64 ] = { };
    if ( fill( bytes, p, T::size_in_bytes( ) ) ) std::memcpy( e.data( ), bytes, T::size_in_bytes( ) );
}
int main( int, char** argv )
{
    const std::string kind = argv[ 1 ];
    const uint64_t n = strtoull( argv[ 3 ], nullptr, 10 );
    for ( int i = 4; argv[ i ]; i += 2 ) windows.push_back( { strtoull( argv[ i ], nullptr, 10 ), strtoull( argv[ i + 1 ], nullptr, 10 ) } );
    auto a = n::ABuilder::open( flatdata::FileResourceStorage::create( argv[ 2 ] ) );
    bool ok = a.is_open( );
    flatdata::Vector< n::B > b( 1 );
    flatdata::Vector< n::W > w( 1 );
    if ( kind != "b" ) ok &= a.set_b( b );
    ok &= a.set_w( w );
    if ( kind != "t" ) ok &= a.set_t( flatdata::Vector< n::T >( ) );
    if ( kind != "r" ) ok &= a.set_r( flatdata::MemoryDescriptor( "raw", 3 ) );
    if ( kind != "m" ) ok &= bool( a.start_m( ).close( ) ), ok = true;
    if ( kind != "l" ) ok &= a.set_l( flatdata::Vector< n::L >( ) );
    if ( kind == "l" )
    {
        auto v = a.start_l( );
        for ( uint64_t i = 0; i < n; i++ ) set< n::L >( v.grow( ), i * 37 );
        ok &= v.size( ) == n && v.close( ).size( ) == n;
    }
    if ( kind == "m" )
    {
        auto m = a.start_m( );
        uint64_t p = 0;
        for ( uint64_t i = 0; i < n; i++ )
        {
            auto item = m.grow( );
            for ( int k = 0; k < 60; k++, p += 38 ) set< n::L >( item.add< n::L >( ), p + 1 );
        }
        ok &= m.close( ).size( ) == n;
    }
    if ( kind == "r" || kind == "t" || kind == "b" )
    {
        const uint64_t bytes = n * ( kind == "t" ? 3 : 1 );
        auto memory = static_cast< unsigned char* >( mmap( nullptr, bytes + 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
        for ( const auto& x : windows ) fill( memory + x.first, x.first, x.second - x.first );
        if ( kind == "r" ) ok &= a.set_r( flatdata::MemoryDescriptor( memory, bytes ) );
        if ( kind == "t" ) ok &= a.set_t( flatdata::ArrayView< n::T >( memory, memory + bytes ) );
        if ( kind == "b" ) ok &= a.set_b( flatdata::ArrayView< n::B >( memory, memory + bytes ) );
    }
    puts( ok ? "ok" : "fails" );
}
