// ArrayView and its iterators against plain sequences. usage: p12 TYPE MAX_N DEPTH
#include "containers.h"
#include <algorithm>
#include <iterator>
#include <memory>

static std::set< std::string > kinds;

template < typename T > struct Range { static bool ok( T, const Val&, const Val& ) { return true; } };
template < > struct Range< n::R > { static bool ok( n::R e, const Val& a, const Val& b ) { std::pair< uint64_t, uint64_t > r = e.r; return r.first == uint64_t( a[ 0 ] ) && r.second == uint64_t( b[ 0 ] ); } };
template < > struct Range< n::Q > { static bool ok( n::Q e, const Val& a, const Val& b ) { std::pair< uint64_t, uint64_t > r = e.q; return r.first == uint64_t( a[ 1 ] ) && r.second == uint64_t( b[ 1 ] ); } };

// `all`: the values of the memory, the view shows [first, first + n)
template < typename T > static std::string judge( flatdata::ArrayView< T > view, const unsigned char* memory, const std::vector< Val >& all, size_t first, size_t n, bool iterators )
{
    typedef Codec< T > C;
    const size_t s = T::size_in_bytes( );
    if ( !view ) return "is not valid";
    if ( view.size( ) != n ) return "size is " + std::to_string( view.size( ) ) + ", expected " + std::to_string( n );
    if ( view.empty( ) != ( n == 0 ) ) return "empty( ) is wrong";
    if ( view.data( ) != memory + first * s ) return "data( ) is wrong";
    const bool sentinel = T::IS_OVERLAPPING_WITH_NEXT && !all.empty( );
    if ( view.size_in_bytes( ) != ( n + sentinel ) * s ) return "size_in_bytes( ) is " + std::to_string( view.size_in_bytes( ) );
    auto want = [ & ]( size_t i ) -> const Val& { return all[ first + i ]; };
    for ( size_t i = 0; i < n; i++ )
    {
        if ( C::get( view[ i ] ) != want( i ) ) return "[" + std::to_string( i ) + "] is wrong";
        if ( sentinel && !Range< T >::ok( view[ i ], want( i ), all[ first + i + 1 ] ) ) return "the range of element " + std::to_string( i ) + " is wrong";
    }
    if ( n && ( C::get( view.front( ) ) != want( 0 ) || C::get( view.back( ) ) != want( n - 1 ) ) ) return "front or back is wrong";
    size_t i = 0;
    for ( auto e : view ) { if ( i >= n || C::get( e ) != want( i ) ) return "iteration is wrong at " + std::to_string( i ); i++; }
    if ( i != n ) return "iteration ends at " + std::to_string( i );
    if ( !iterators ) return "";
    const auto begin = view.begin( ), end = view.end( );
    for ( ptrdiff_t a = 0; a <= ptrdiff_t( n ); a++ )
    {
        const auto ia = begin + a;
        const std::string at = " at " + std::to_string( a );
        if ( ia - begin != a || begin - ia != -a || end - ia != ptrdiff_t( n ) - a || ia - end != a - ptrdiff_t( n ) ) return "a distance to begin or end is wrong" + at;
        for ( ptrdiff_t b = 0; b <= ptrdiff_t( n ); b++ )
        {
            const auto ib = begin + b;
            const std::string p = at + " and " + std::to_string( b );
            if ( ia - ib != a - b ) return "the difference is " + std::to_string( ia - ib ) + p;
            if ( std::distance( ia, ib ) != b - a ) return "std::distance is wrong" + p;
            if ( ( ia == ib ) != ( a == b ) || ( ia != ib ) != ( a != b ) || ( ia < ib ) != ( a < b ) || ( ia <= ib ) != ( a <= b ) || ( ia > ib ) != ( a > b ) || ( ia >= ib ) != ( a >= b ) ) return "a comparison is wrong" + p;
            auto x = ia; x += b - a; if ( x != ib ) return "+= is wrong" + p;
            auto y = ia; y -= a - b; if ( y != ib ) return "-= is wrong" + p;
            if ( ia + ( b - a ) != ib || ia - ( a - b ) != ib ) return "+ or - is wrong" + p;
            auto z = ia; std::advance( z, b - a ); if ( z != ib ) return "std::advance is wrong" + p;
            if ( b < ptrdiff_t( n ) && C::get( ia[ b - a ] ) != want( b ) ) return "[ ] of an iterator is wrong" + p;
            if ( ( &( x += 0 ) != &x ) || ( &( x -= 0 ) != &x ) ) return "+= or -= returns a copy";
        }
        if ( a < ptrdiff_t( n ) )
        {
            if ( C::get( *ia ) != want( a ) ) return "* is wrong" + at;
            if ( C::get( *ia.operator->( ).operator->( ) ) != want( a ) || ia->data( ) != memory + ( first + a ) * s ) return "-> is wrong" + at;
            auto x = ia; auto y = x++; if ( y != ia || x != begin + ( a + 1 ) ) return "it++ is wrong" + at;
            auto u = ia; if ( ++u != begin + ( a + 1 ) || &++u != &u ) return "++it is wrong" + at;
        }
        if ( a > 0 )
        {
            auto x = ia; auto y = x--; if ( y != ia || x != begin + ( a - 1 ) ) return "it-- is wrong" + at;
            auto u = ia; if ( --u != begin + ( a - 1 ) ) return "--it is wrong" + at;
        }
    }
    // algorithms of the standard library
    std::vector< Val > reversed, plain( all.begin( ) + first, all.begin( ) + first + n );
    for ( auto it = std::make_reverse_iterator( end ); it != std::make_reverse_iterator( begin ); ++it ) { const T e = *it; reversed.insert( reversed.begin( ), C::get( e ) ); }
    if ( reversed != plain ) return "reverse iteration is wrong";
    for ( size_t k = 0; k < n; k++ )
    {
        const auto found = std::find_if( begin, end, [ & ]( T e ) { return C::get( e ) == want( k ); } );
        const auto model = std::find( plain.begin( ), plain.end( ), want( k ) );
        if ( found - begin != model - plain.begin( ) ) return "std::find_if is wrong";
        const auto bound = std::partition_point( begin, end, [ & ]( T e ) { return e.data( ) < memory + ( first + k ) * s; } );
        if ( bound - begin != ptrdiff_t( k ) ) return "std::partition_point is wrong";
    }
    if ( size_t( std::count_if( begin, end, [ & ]( T ) { return true; } ) ) != n ) return "std::count_if is wrong";
    return "";
}

template < typename T > struct Explorer
{
    const unsigned char* memory;
    const std::vector< Val >& all;
    size_t depth;
    std::string name;

    void visit( flatdata::ArrayView< T > v, size_t first, size_t n, size_t level, const std::string& path )
    {
        count++;
        const std::string msg = judge( v, memory, all, first, n, level < 2 );
        if ( !msg.empty( ) ) return fail( name + path, msg );
        if ( level == depth ) return;
        if ( level == 0 ) kinds.insert( name );
        for ( size_t p = 0; p <= n; p++ )
        {
            const std::string a = std::to_string( p );
            for ( size_t l = 0; p + l <= n; l++ )
            {
                const std::string b = "," + std::to_string( l ) + ")";
                visit( v.slice( p, l ), first + p, l, level + 1, path + ".slice(" + a + b );
                visit( v.slice( std::make_pair( p, p + l ) ), first + p, l, level + 1, path + ".slice(range " + a + b );
                if ( level < 2 ) kinds.insert( name + path + ".slice(" + a + b );
            }
            visit( v.slice_before( p ), first, p, level + 1, path + ".slice_before(" + a + ")" );
            visit( v.slice_after( p ), first + p, n - p, level + 1, path + ".slice_after(" + a + ")" );
            visit( v.skip( p ), first + p, n - p, level + 1, path + ".skip(" + a + ")" );
            visit( v.skip_last( p ), first, n - p, level + 1, path + ".skip_last(" + a + ")" );
        }
    }
};

template < typename T > static void views( size_t max, size_t depth )
{
    for ( size_t n = 0; n <= max; n++ )
        for ( size_t extra = 0; extra < T::size_in_bytes( ) && extra < ( n < 3 ? 100 : 1 ); extra++ )
        {
            // exactly the bytes of a resource: payload, padding of 8 bytes
            const size_t size = n * T::size_in_bytes( ) + extra;
            std::unique_ptr< unsigned char[] > memory( new unsigned char[ size + 8 ] );
            std::fill( memory.get( ), memory.get( ) + size + 8, 0xA5 );
            std::vector< Val > all;
            {
                flatdata::Vector< T > v( n );
                for ( size_t i = 0; i < n; i++ ) { const Val x = Codec< T >::val( i == 4 ? 2 : i ); Codec< T >::put( v[ i ], x ); all.push_back( x ); }
                std::copy( v.data( ), v.data( ) + n * T::size_in_bytes( ), memory.get( ) );
            }
            const size_t shown = T::IS_OVERLAPPING_WITH_NEXT && n ? n - 1 : n;
            const std::string name = std::string( Codec< T >::name( ) ) + " n=" + std::to_string( n ) + "+" + std::to_string( extra ) + " ";
            flatdata::ArrayView< T > view( memory.get( ), memory.get( ) + size );
            Explorer< T >{ memory.get( ), all, n < 3 || depth < 3 ? depth : n > 4 ? depth - 1 : depth, name }.visit( view, 0, shown, 0, "" );
        }
    flatdata::ArrayView< T > none;
    count++;
    if ( none || !none.empty( ) || none.size( ) || none.size_in_bytes( ) || !( none.begin( ) == none.end( ) ) || none.end( ) - none.begin( ) ) fail( "default view", "is not empty" );
    if ( !( typename flatdata::ArrayView< T >::const_iterator( ) == none.begin( ) ) ) fail( "default iterator", "differs" );
}

int main( int, char** argv )
{
    const std::string type = argv[ 1 ];
    const size_t n = atoi( argv[ 2 ] ), depth = atoi( argv[ 3 ] );
#define EACH( T ) if ( type == #T ) views< n::T >( n, depth );
    EACH( A ) EACH( B ) EACH( E ) EACH( W ) EACH( R ) EACH( Q )
    return finish( kinds );
}
