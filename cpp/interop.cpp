// Writes and reads archives of lib/interop.py. stdin, per case: "W directory way content" or "R directory"; stdout: one line per case
#include "interop.hpp"
#include <flatdata/flatdata.h>
#include <iostream>
#include <sstream>
#include <stdexcept>

typedef std::istream In;
static int64_t number( In& in ) { std::string s; in >> s; return s[ 0 ] == '-' ? int64_t( std::stoll( s ) ) : int64_t( std::stoull( s ) ); }

template < typename T > struct Fields;
#define FIELDS( T, PUT, GET ) template < > struct Fields< T > { \
    template < typename W > static void put( W w, In& in ) { PUT } \
    template < typename O > static void get( T r, O& out ) { GET } };
#define P( F ) w.F = number( in );
#define G( F ) out << ' ' << +r.F;
FIELDS( n::A, P( a ) P( b ) P( c ) P( d ), G( a ) G( b ) G( c ) G( d ) )
FIELDS( n::B, P( x ) P( y ) P( z ), G( x ) G( y ) G( z ) )
FIELDS( n::E, w.k = n::Kind( number( in ) ); P( o ) P( p ), out << ' ' << int( n::Kind( r.k ) ) << ' ' << ( r.o ? int( *r.o ) : -7 ); G( p ) )
FIELDS( n::R, P( first ) P( v ), G( first ) G( v ) )
FIELDS( n::U, P( u ), G( u ) )
FIELDS( n::m::A, P( w ), G( w ) )

static void want( bool ok, const char* what ) { if ( !ok ) throw std::runtime_error( std::string( what ) + " failed" ); }
static bool absent( In& in, const char* name )
{
    std::string s;
    in >> s;
    if ( s != name ) throw std::logic_error( "expected " + std::string( name ) + ", found " + s );
    in >> std::ws;
    if ( in.peek( ) != '-' ) return false;
    const auto at = in.tellg( );
    in >> s;
    if ( s == "-" ) return true;
    in.seekg( at );
    return false;
}

// way: 0: vectors are set, 1: vectors are grown in the file, 2: set from a vector whose elements were changed and added late
#define INST( N, T ) if ( !absent( in, #N ) ) { flatdata::Struct< T > s; Fields< T >::put( *s, in ); want( b.set_##N( *s ), "set_" #N ); }
#define VEC( N, T ) if ( !absent( in, #N ) ) { \
    const size_t size = number( in ); \
    if ( way == 1 ) { auto v = b.start_##N( ); for ( size_t i = 0; i < size; i++ ) Fields< T >::put( v.grow( ), in ); want( bool( v.close( ) ), "start_" #N ); } \
    else if ( way == 0 ) { flatdata::Vector< T > v( size ); for ( size_t i = 0; i < size; i++ ) Fields< T >::put( v[ i ], in ); want( b.set_##N( v ), "set_" #N ); } \
    else { flatdata::Vector< T > v; for ( size_t i = 0; i < size; i++ ) { Fields< T >::put( v.grow( ), in ); } want( b.set_##N( v ), "set_" #N ); } }
#define RAW( N ) if ( !absent( in, #N ) ) { std::string s, d; in >> s; \
    for ( size_t i = 0; s != "." && i < s.size( ); i += 2 ) d += char( std::stoi( s.substr( i, 2 ), nullptr, 16 ) ); \
    want( b.set_##N( flatdata::MemoryDescriptor( d.data( ), d.size( ) ) ), "set_" #N ); }
#define MV( N, ... ) if ( !absent( in, #N ) ) { auto v = b.start_##N( ); const size_t items = number( in ); \
    for ( size_t i = 0; i < items; i++ ) { auto l = v.grow( ); const size_t size = number( in ); \
        for ( size_t j = 0; j < size; j++ ) add( l, number( in ), in, static_cast< Types< __VA_ARGS__ >* >( nullptr ) ); } \
    want( bool( v.close( ) ), "start_" #N ); }
template < typename... T > struct Types { };
template < typename L > void add( L&, int64_t, In&, Types< >* ) { throw std::logic_error( "type" ); }
template < typename L, typename T, typename... Rest > void add( L& l, int64_t type, In& in, Types< T, Rest... >* )
{
    if ( type == 0 ) Fields< T >::put( l.template add< T >( ), in );
    else add( l, type - 1, in, static_cast< Types< Rest... >* >( nullptr ) );
}
#define SUB( N ) if ( !absent( in, #N ) ) { std::string s; in >> s; write( b.N( ), in, way ); in >> s; if ( s != "}" ) throw std::logic_error( "expected } not " + s ); }

template < typename B > auto write( B&& b, In& in, int way ) -> decltype( b.set_a( std::declval< n::m::A >( ) ), void( ) ) { INST( a, n::m::A ) VEC( v, n::m::A ) RAW( o ) }
template < typename B > auto write( B&& b, In& in, int way ) -> decltype( b.leaf( ), void( ) ) { SUB( leaf ) SUB( more ) VEC( us, n::U ) }
template < typename B > auto write( B&& b, In& in, int way ) -> decltype( b.mid( ), void( ) )
{
    INST( inst, n::A ) VEC( vec, n::B ) VEC( es, n::E ) VEC( rs, n::R )
    MV( mv, n::A, n::B, n::U ) MV( mvs, n::U ) MV( mvl, n::E, n::B )
    RAW( raw ) SUB( mid ) INST( oinst, n::E ) VEC( ovec, n::U ) MV( omv, n::U ) RAW( oraw ) SUB( omid ) MV( mvh, n::A, n::m::A )
}

typedef std::ostream Out;
static const char* name_of( const char* n ) { return n; }
template < typename T > void show_inst( Out& out, T t ) { if ( t ) Fields< T >::get( t, out ); else out << " -"; }
template < typename T > void show_vec( Out& out, flatdata::ArrayView< T > v )
{
    if ( !v ) { out << " -"; return; }
    std::ostringstream all;
    size_t n = 0;
    for ( T e : v ) { Fields< T >::get( e, all ); n++; }
    if ( n != v.size( ) ) out << " (size " << v.size( ) << ")";
    out << ' ' << n << all.str( );
}
// the sentinel of a vector of ranges is not an element; its bytes follow the last one
static void show_vec( Out& out, flatdata::ArrayView< n::R > v )
{
    if ( !v ) { out << " -"; return; }
    out << ' ' << v.size( ) + 1;
    for ( auto e : v )
    {
        Fields< n::R >::get( e, out );
        if ( std::make_pair( uint32_t( e.first ), uint32_t( n::R( e.data( ) + n::R::size_in_bytes( ) ).first ) ) != std::pair< uint32_t, uint32_t >( e.edges ) ) out << " (range)";
    }
    Fields< n::R >::get( n::R( v.data( ) + v.size( ) * n::R::size_in_bytes( ) ), out );
}
template < typename... T > struct ShowItem;
template < typename V, typename... T > void show_mv( Out& out, const V& v, Types< T... >* )
{
    if ( !v ) { out << " -"; return; }
    out << ' ' << v.size( );
    for ( size_t i = 0; i < v.size( ); i++ )
    {
        std::ostringstream all;
        size_t n = 0;
        v.for_each( i, [ & ]( auto e ) { n++; all << ' ' << flatdata::index_of< decltype( e ), T... >::value; Fields< decltype( e ) >::get( e, all ); } );
        out << ' ' << n << all.str( );
    }
}
static void show_raw( Out& out, flatdata::MemoryDescriptor d )
{
    if ( !d ) { out << " -"; return; }
    out << ' ';
    char b[ 4 ];
    for ( size_t i = 0; i < d.size_in_bytes( ); i++ ) { snprintf( b, 4, "%02x", d.data( )[ i ] ); out << b; }
    if ( d.size_in_bytes( ) == 0 ) out << '.';
}
#define S( N, CALL ) out << ( first ? "" : " " ) << name_of( #N ); first = false; CALL;
#define OPT( N, CALL ) out << ' ' << #N; if ( a.N( ) ) { const auto& it = *a.N( ); CALL; } else out << " -";
static void show( Out& out, const n::Mid& a );
static void show( Out& out, const n::m::Leaf& a ) { bool first = true; S( a, show_inst( out, a.a( ) ) ) S( v, show_vec( out, a.v( ) ) ) OPT( o, show_raw( out, it ) ) }
template < typename T > void show_sub( Out& out, const T& t ) { if ( !t ) { out << " -"; return; } out << " { "; show( out, t ); out << " }"; }
static void show( Out& out, const n::Mid& a ) { bool first = true; S( leaf, show_sub( out, a.leaf( ) ) ) OPT( more, show_sub( out, it ) ) OPT( us, show_vec( out, it ) ) }
static void show( Out& out, const n::Top& a )
{
    bool first = true;
    S( inst, show_inst( out, a.inst( ) ) ) S( vec, show_vec( out, a.vec( ) ) ) S( es, show_vec( out, a.es( ) ) ) S( rs, show_vec( out, a.rs( ) ) )
    S( mv, show_mv( out, a.mv( ), static_cast< Types< n::A, n::B, n::U >* >( nullptr ) ) )
    S( mvs, show_mv( out, a.mvs( ), static_cast< Types< n::U >* >( nullptr ) ) )
    S( mvl, show_mv( out, a.mvl( ), static_cast< Types< n::E, n::B >* >( nullptr ) ) )
    S( raw, show_raw( out, a.raw( ) ) ) S( mid, show_sub( out, a.mid( ) ) ) OPT( oinst, show_inst( out, it ) ) OPT( ovec, show_vec( out, it ) )
    OPT( omv, show_mv( out, it, static_cast< Types< n::U >* >( nullptr ) ) ) OPT( oraw, show_raw( out, it ) ) OPT( omid, show_sub( out, it ) )
    S( mvh, show_mv( out, a.mvh( ), static_cast< Types< n::A, n::m::A >* >( nullptr ) ) )
}

int main( )
{
    std::string line;
    while ( std::getline( std::cin, line ) )
    {
        std::istringstream in( line );
        std::string op, dir;
        in >> op >> dir;
        std::ostringstream out;
        try
        {
            if ( op == "W" )
            {
                const int way = int( number( in ) );
                auto b = n::TopBuilder::open( flatdata::FileResourceStorage::create( dir.c_str( ) ) );
                want( b.is_open( ), "opening the builder" );
                write( b, in, way );
                out << "ok";
            }
            else
            {
                auto a = n::Top::open( flatdata::FileResourceStorage::open( dir.c_str( ) ) );
                if ( !a ) out << "closed\\n" ; else show( out, a );
            }
        }
        catch ( const std::exception& e ) { out.str( "" ); out << "error: " << e.what( ); }
        std::cout << out.str( ) << std::endl;
    }
}
