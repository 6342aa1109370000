// Vector: all operation sequences; external vectors and multivectors: all small contents. usage: p11 vector TYPE DEPTH | external TYPE N | multi DEPTH
#include "containers.h"

template < typename T > static std::vector< Val > values( const flatdata::Vector< T >& v )
{
    std::vector< Val > r;
    for ( size_t i = 0; i < v.size( ); i++ ) r.push_back( Codec< T >::get( v[ i ] ) );
    return r;
}

static const char* const OPS[] = { "grow", "grow+1", "grow+2", "pop", "resize0", "resize1", "resize3", "reserve5", "set0", "copy", "copyall", "setback" };
enum { NOPS = 12 };
static std::set< std::string > kinds;

template < typename T > static bool apply( flatdata::Vector< T >& v, std::vector< Val >& m, int op )
{
    typedef Codec< T > C;
    const Val zero = C::val( 0 );
    switch ( op )
    {
    case 0: v.grow( ); m.push_back( zero ); return true;
    case 1: C::put( v.grow( ), C::val( 1 ) ); m.push_back( C::val( 1 ) ); return true;
    case 2: C::put( v.grow( ), C::val( m.size( ) + 2 ) ); m.push_back( C::val( m.size( ) + 2 ) ); return true;
    case 3: if ( m.empty( ) ) return false; v.pop_back( ); m.pop_back( ); return true;
    case 4: v.resize( 0 ); m.resize( 0, zero ); return true;
    case 5: v.resize( 1 ); m.resize( 1, zero ); return true;
    case 6: v.resize( 3 ); m.resize( 3, zero ); return true;
    case 7: v.reserve( 5 ); return true;
    case 8: if ( m.empty( ) ) return false; C::put( v.front( ), C::val( 1 ) ); m.front( ) = C::val( 1 ); return true;
    case 9: if ( m.size( ) < 2 ) return false; flatdata::copy_struct( v[ 0 ], v[ m.size( ) - 1 ] ); m[ 0 ] = m.back( ); return true;
    case 10: { flatdata::Vector< T > w( v ); v = w; return true; }
    case 11: if ( m.empty( ) ) return false; C::put( v.back( ), C::val( 7 ) ); m.back( ) = C::val( 7 ); return true;
    }
    return false;
}

template < typename T > static std::string judge( const flatdata::Vector< T >& v, const std::vector< Val >& m )
{
    if ( v.size( ) != m.size( ) ) return "size is " + std::to_string( v.size( ) ) + ", expected " + std::to_string( m.size( ) );
    if ( v.size_in_bytes( ) != m.size( ) * T::size_in_bytes( ) ) return "wrong size_in_bytes";
    const auto got = values( v );
    if ( got != m ) return "holds " + text( got ) + ", expected " + text( m );
    if ( !m.empty( ) && ( Codec< T >::get( v.front( ) ) != m.front( ) || Codec< T >::get( v.back( ) ) != m.back( ) ) ) return "front or back is wrong";
    flatdata::ArrayView< T > view = v;
    const size_t n = m.empty( ) || !T::IS_OVERLAPPING_WITH_NEXT ? m.size( ) : m.size( ) - 1;
    if ( view.size( ) != n ) return "the view has size " + std::to_string( view.size( ) );
    size_t i = 0;
    for ( auto e : view ) if ( Codec< T >::get( e ) != m[ i++ ] ) return "the view differs at " + std::to_string( i - 1 );
    return "";
}

template < typename T > static void vectors( size_t depth, size_t initial )
{
    std::vector< int > ops( depth, 0 );
    for ( ;; )
    {
        flatdata::Vector< T > v( initial );
        std::vector< Val > m( initial, Codec< T >::val( 0 ) );
        size_t i = 0;
        std::string msg;
        bool valid = true;
        for ( ; i < depth && valid && msg.empty( ); i++ ) { valid = apply( v, m, ops[ i ] ); if ( valid ) msg = judge( v, m ); }
        if ( !msg.empty( ) )
        {
            std::string name = std::string( "vector " ) + Codec< T >::name( ) + " " + std::to_string( initial );
            for ( size_t k = 0; k < i; k++ ) name += std::string( ";" ) + OPS[ ops[ k ] ];
            fail( name, msg );
        }
        else if ( valid ) count++;
        if ( valid && msg.empty( ) && kinds.size( ) < 4000 ) kinds.insert( std::string( Codec< T >::name( ) ) + text( m ) );
        // next sequence; skip those with the same failing prefix
        size_t k = valid && msg.empty( ) ? depth : i;
        for ( size_t j = k; j < depth; j++ ) ops[ j ] = NOPS - 1;
        while ( k && ops[ k - 1 ] == NOPS - 1 ) k--;
        if ( !k ) break;
        ops[ k - 1 ]++;
        for ( size_t j = k; j < depth; j++ ) ops[ j ] = 0;
    }
}

// external vectors of every length, every pattern of assigned elements for short ones
template < typename T > static void external( size_t max )
{
    auto run = [ & ]( size_t n, unsigned pattern ) {
        const std::string name = std::string( "external " ) + Codec< T >::name( ) + " " + std::to_string( n ) + " pattern " + std::to_string( pattern );
        Control c, d;
        MapStorage s( c ), plain( d );
        std::vector< Val > m;
        flatdata::Vector< T > same;
        auto v = s.create_external_vector< T >( "x", "schema" );
        for ( size_t i = 0; i < n; i++ )
        {
            if ( v.size( ) != i || v.empty( ) != ( i == 0 ) ) return fail( name, "wrong size while growing" );
            const Val w = Codec< T >::val( n > 12 ? i : pattern >> i & 1 ? i + 1 : 0 );
            auto e = v.grow( );
            if ( Codec< T >::get( e ) != Codec< T >::val( 0 ) ) return fail( name, "a new element is not zero" );
            if ( n > 12 || pattern >> i & 1 ) { Codec< T >::put( e, w ); if ( Codec< T >::get( e ) != w ) return fail( name, "a new element does not hold its value" ); }
            if ( n > 12 || pattern >> i & 1 ) Codec< T >::put( same.grow( ), w ); else same.grow( );
            m.push_back( w );
        }
        flatdata::ArrayView< T > view = v.close( );
        count++;
        const size_t shown = m.empty( ) || !T::IS_OVERLAPPING_WITH_NEXT ? m.size( ) : m.size( ) - 1;
        if ( !view || view.size( ) != shown ) return fail( name, "close( ) returns a view of size " + std::to_string( view.size( ) ) );
        for ( size_t i = 0; i < shown; i++ ) if ( Codec< T >::get( view[ i ] ) != m[ i ] ) return fail( name, "close( ) returns other values at " + std::to_string( i ) );
        flatdata::ArrayView< T > as_view = same;
        // the view of a range struct's vector hides the sentinel, but the whole vector is written
        if ( !plain.write( "x", "schema", as_view ) ) return fail( name, "writing a vector fails" );
        if ( c.files != d.files ) return fail( name, "an external vector and a vector of the same values are stored differently" );
        auto again = s.read< flatdata::ArrayView< T > >( "x", "schema" );
        if ( !again || again->size( ) != shown ) return fail( name, "cannot be read again" );
        const std::string& f = c.files[ "x" ];
        if ( f.size( ) != 16 + n * T::size_in_bytes( ) ) return fail( name, "the file has size " + std::to_string( f.size( ) ) );
        kinds.insert( std::string( Codec< T >::name( ) ) + std::to_string( n ) + "/" + std::to_string( pattern ) );
    };
    for ( size_t n = 0; n <= 10; n++ ) for ( unsigned p = 0; p < ( 1u << n ); p++ ) run( n, p );
    for ( size_t n = 11; n <= max; n++ ) run( n, 0 );
}

// multivectors: all contents of `n` items, each one of `all`
static void multi( size_t n, const std::vector< std::vector< int > >& all, size_t part, size_t parts )
{
    sequences( n, all.size( ), part, parts, [ & ]( const std::vector< size_t >& which ) {
        std::string name = "multi ";
        for ( size_t w : which ) { for ( int t : all[ w ] ) name += "ABEW"[ t ]; name += "|"; }
        Control c;
        auto b = n::CBuilder::open( std::make_shared< MapStorage >( c ) );
        auto v = b.start_m( );
        Items m;
        uint64_t i = 0;
        for ( size_t w : which )
        {
            auto l = v.grow( );
            m.emplace_back( );
            for ( int t : all[ w ] ) if ( !add( l, m.back( ), t, i++ % 5 ) ) return fail( name, "a new element is not zero" );
        }
        auto view = v.close( );
        count++;
        n::C archive = n::C::open( std::make_shared< MapStorage >( c ) );
        for ( const auto& x : { view, archive.m( ) } )
        {
            if ( !x || x.size( ) != m.size( ) ) return fail( name, "has " + std::to_string( x.size( ) ) + " items" );
            for ( size_t k = 0; k < m.size( ); k++ )
            {
                Item got;
                x.for_each( k, Collect{ got } );
                if ( got != m[ k ] ) return fail( name, "item " + std::to_string( k ) + " is " + text( got ) + ", expected " + text( m[ k ] ) );
            }
        }
        if ( kinds.size( ) < 4000 ) kinds.insert( name );
    } );
}

int main( int argc, char** argv )
{
    const std::string mode = argv[ 1 ], type = argv[ 2 ];
    const size_t n = atoi( argv[ 3 ] ), more = argc > 4 ? atoi( argv[ 4 ] ) : 0;
#define EACH( T ) if ( type == #T ) { if ( mode == "vector" ) vectors< n::T >( n, more ); if ( mode == "external" ) external< n::T >( n ); }
    EACH( A ) EACH( B ) EACH( E ) EACH( W ) EACH( R ) EACH( Q )
    if ( mode == "multi" )
    {
        // type: depth of the exhaustive search, n: part, more: parts
        if ( type == "3" ) { for ( size_t k = 0; k <= 3; k++ ) multi( k, lists( 2, 4 ), n, more ); for ( size_t k = 4; k <= 5; k++ ) multi( k, lists( 2, 2 ), n, more ); multi( 2, lists( 3, 4 ), n, more ); multi( 1, lists( 4, 4 ), n, more ); }
        if ( type == "4" ) { multi( 4, lists( 2, 4 ), n, more ); multi( 3, lists( 3, 3 ), n, more ); multi( 9, lists( 1, 2 ), n, more ); }
        if ( type == "all" ) for ( size_t k = n; k < 400; k += more ) multi( k, { { }, }, 0, 1 ), multi( 1, { std::vector< int >( k, k % 4 ) }, 0, 1 );
    }
    return finish( kinds );
}
