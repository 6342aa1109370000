// External vectors and multivectors around every flush of their 32 MB buffers. usage: flush TYPE | multi OFFSET | index
#include "containers.h"

static const size_t LIMIT = 1024 * 1024 * 32;

template < typename T > static void external( int deltas )
{
    const size_t size = T::size_in_bytes( );
    for ( size_t flushes = 1; flushes <= 2; flushes++ )
        for ( int d = -deltas; d <= deltas; d++ )
        {
            const size_t n = flushes * ( LIMIT / size ) + d;
            const std::string name = std::string( "flush " ) + Codec< T >::name( ) + " " + std::to_string( n );
            Control c;
            MapStorage s( c );
            auto v = s.create_external_vector< T >( "x", "schema" );
            const Val zero = Codec< T >::val( 0 );
            size_t wrong = 0;
            for ( size_t i = 0; i < n; i++ )
            {
                auto e = v.grow( );
                if ( i % 1000 < 3 && Codec< T >::get( e ) != zero ) wrong++;
                if ( i % 3 ) Codec< T >::put( e, Codec< T >::val( i ) ); // others stay zero
            }
            auto view = v.close( );
            count++;
            const size_t shown = T::IS_OVERLAPPING_WITH_NEXT ? n - 1 : n;
            if ( wrong ) fail( name, "a new element is not zero" );
            if ( !view || view.size( ) != shown ) { fail( name, "close( ) returns a view of size " + std::to_string( view.size( ) ) ); continue; }
            size_t i = 0;
            for ( ; i < shown; i++ ) if ( Codec< T >::get( view[ i ] ) != ( i % 3 ? Codec< T >::val( i ) : zero ) ) break;
            if ( i != shown ) fail( name, "element " + std::to_string( i ) + " is wrong" );
        }
}

// a multivector whose data has exactly LIMIT + offset bytes before the item is started at which the buffer may be flushed
static void multi( long offset )
{
    const std::string name = "flush multi " + std::to_string( offset );
    Control c;
    auto b = n::CBuilder::open( std::make_shared< MapStorage >( c ) );
    auto v = b.start_m( );
    Items head, tail;       // the first items and those around the flushes
    size_t bytes = 0;
    const size_t big = 1 << 20;
    std::vector< size_t > fillers;
    for ( int round = 0; round < 2; round++ )
    {
        const size_t target = ( round + 1 ) * ( LIMIT + 64 ) + offset;
        while ( bytes < target )
        {
            auto l = v.grow( );
            const size_t left = target - bytes;
            Item m;
            size_t n = 0;
            if ( left >= 17 * 65536 + 4 ) { for ( ; n < 65536; n++ ) { Item t; add( l, t, 1, n % 7 ); } bytes += 17 * n; fillers.push_back( n ); tail.push_back( { } ); continue; }
            // few small elements to hit the target (sizes with type: E 2, W 4, A 7, B 17)
            if ( left == 3 || left == 1 ) break;
            const int type = left % 2 && left >= 7 ? 0 : left >= 17 && left % 2 ? 1 : left >= 4 ? 3 : 2;
            for ( size_t k = 0; k < 1; k++ ) { add( l, m, type, left % 11 + 1 ); bytes += type == 0 ? 7 : type == 1 ? 17 : type == 3 ? 4 : 2; }
            tail.push_back( m );
            fillers.push_back( 0 );
            if ( left > 40000 ) { for ( size_t k = 0; k < ( left - 30000 ) / 17; k++ ) { add( l, tail.back( ), 1, k ); bytes += 17; } }
        }
        for ( int k = 0; k < 3; k++ )
        {
            auto l = v.grow( );
            Item m;
            for ( int t = 0; t < 4 - k; t++ ) { if ( !add( l, m, t, k + t ) ) fail( name, "a new element is not zero" ); }
            for ( const auto& e : m ) bytes += e.first == 0 ? 7 : e.first == 1 ? 17 : e.first == 2 ? 2 : 4;
            tail.push_back( m );
            fillers.push_back( 0 );
        }
    }
    auto view = v.close( );
    count++;
    if ( !view || view.size( ) != tail.size( ) ) return fail( name, "has " + std::to_string( view.size( ) ) + " items, expected " + std::to_string( tail.size( ) ) );
    for ( size_t i = 0; i < tail.size( ); i++ )
    {
        Item got;
        view.for_each( i, Collect{ got } );
        if ( fillers[ i ] )
        {
            bool same = got.size( ) == fillers[ i ];
            for ( size_t k = 0; same && k < got.size( ); k++ ) same = got[ k ].first == 1 && got[ k ].second == Codec< n::B >::val( k % 7 );
            if ( !same ) return fail( name, "item " + std::to_string( i ) + " is wrong" );
        }
        else if ( got != tail[ i ] ) return fail( name, "item " + std::to_string( i ) + " is " + text( got ).substr( 0, 200 ) + ", expected " + text( tail[ i ] ).substr( 0, 200 ) );
    }
}

// the index of a multivector is flushed on its own: many empty and small items
static void index( int d )
{
    const std::string name = "flush index " + std::to_string( d );
    Control c;
    auto b = n::CBuilder::open( std::make_shared< MapStorage >( c ) );
    auto v = b.start_m( );
    const size_t n = LIMIT / 5 + d;
    for ( size_t i = 0; i < n; i++ ) { auto l = v.grow( ); if ( i % 4 == 3 ) { Item m; add( l, m, 2, i ); } }
    auto view = v.close( );
    count++;
    if ( !view || view.size( ) != n ) return fail( name, "has " + std::to_string( view.size( ) ) + " items" );
    for ( size_t i = 0; i < n; i++ )
    {
        Item got;
        view.for_each( i, Collect{ got } );
        if ( got != ( i % 4 == 3 ? Item{ { 2, Codec< n::E >::val( i ) } } : Item( ) ) ) return fail( name, "item " + std::to_string( i ) + " is wrong" );
    }
}

int main( int argc, char** argv )
{
    const std::string mode = argv[ 1 ];
    const int n = argc > 2 ? atoi( argv[ 2 ] ) : 0;
    if ( mode == "A" ) external< n::A >( n );
    if ( mode == "B" ) external< n::B >( n );
    if ( mode == "W" ) external< n::W >( n );
    if ( mode == "Q" ) external< n::Q >( n );
    if ( mode == "multi" ) multi( n );
    if ( mode == "index" ) for ( int d = -2; d <= 2; d++ ) index( d );
    return finish( { mode } );
}
