// Opening of archives whose resources are limited by explicit references: all sizes around every limit.
#include "refs.hpp"
#include <flatdata/flatdata.h>
#include <cstdio>
#include <memory>

static int failures = 0;
static long count = 0;

static bool too_large_in( const std::string& description, const std::string& name, const char* column )
{
    // name, optional, too large, loaded
    std::stringstream s( description );
    std::string line;
    while ( std::getline( s, line ) )
    {
        std::stringstream l( line );
        std::string n, optional, large, loaded;
        l >> n >> optional >> large >> loaded;
        if ( n == name ) return large == column;
    }
    return false;
}

static void run( size_t target, long otarget, size_t raw, size_t multi, size_t ranged, size_t free_ )
{
    std::shared_ptr< flatdata::ResourceStorage > storage( flatdata::MemoryResourceStorage::create( ) );
    {
        auto b = n::ArcBuilder::open( storage );
        b.set_refs( flatdata::Vector< n::R >( 2 ) );
        b.set_refs2( flatdata::Vector< n::R >( ) );
        flatdata::Vector< n::N > ns( 2 );
        b.set_ns( ns );
        b.set_target( flatdata::Vector< n::T >( target ) );
        if ( otarget >= 0 ) b.set_otarget( flatdata::Vector< n::T >( otarget ) );
        const std::string bytes( raw, 'x' );
        b.set_rawtarget( flatdata::MemoryDescriptor( bytes.data( ), bytes.size( ) ) );
        auto m = b.start_mtarget( );
        for ( size_t i = 0; i < multi; i++ ) { auto l = m.grow( ); if ( i % 2 ) { l.add< n::T >( ).t = i; l.add< n::T >( ).t = i; } }
        m.close( );
        b.set_ranged( flatdata::Vector< n::T >( ranged ) );
        b.set_free( flatdata::Vector< n::T >( free_ ) );
    }
    auto a = n::Arc::open( storage );
    const bool want = target <= 4 && otarget <= 8 && raw <= 4 && multi <= 8 && ranged <= 16;
    count++;
    char name[ 200 ];
    snprintf( name, 200, "target=%zu otarget=%ld rawtarget=%zu mtarget=%zu ranged=%zu free=%zu", target, otarget, raw, multi, ranged, free_ );
    if ( a.is_open( ) != want && failures++ < 10 )
        printf( "FAIL|%s|is_open( ) is %d, expected %d\n", name, a.is_open( ), want );
    const std::string d = a.describe( );
    const struct { const char* name; bool large; } expected[] = { { "target", target > 4 }, { "otarget", otarget > 8 }, { "rawtarget", raw > 4 },
        { "mtarget", multi > 8 }, { "ranged", ranged > 16 }, { "free", false }, { "refs", false } };
    for ( const auto& e : expected )
        if ( !too_large_in( d, e.name, e.large ? "YES" : "NO" ) && failures++ < 10 )
            printf( "FAIL|%s|%s is %stoo large, described as:|%s\n", name, e.name, e.large ? "" : "not ", d.substr( 0, 100 ).c_str( ) );
}

int main( )
{
    for ( size_t t : { 0, 3, 4, 5, 8 } )
        for ( long o : { -1, 0, 4, 7, 8, 9, 16 } )
            for ( size_t r : { 0, 3, 4, 5 } )
                for ( size_t m : { 0, 7, 8, 9 } )
                    for ( size_t g : { 0, 15, 16, 17 } )
                        for ( size_t f : { 0, 20 } )
                            run( t, o, r, m, g, f );
    for ( size_t i = 0; i < 20; i++ ) { run( i, 0, 0, 0, 0, 0 ); run( 0, i, 0, 0, 0, 0 ); run( 0, 0, i, 0, 0, 0 ); run( 0, 0, 0, i, 0, 0 ); run( 0, 0, 0, 0, i, 0 ); }
    run( 0, 0, 0, 0, 0, 70000 );
    printf( "COUNT|%ld\n", count );
    return failures != 0;
}
