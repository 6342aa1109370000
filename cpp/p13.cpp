// Access to multivectors written byte by byte. usage: p13 m DEPTH PART PARTS | k ... | h ... | bad
#include "containers.h"
#include <cstring>
#include <memory>

static std::set< std::string > kinds;

template < typename T > static std::string bytes_of( uint64_t i )
{
    flatdata::Struct< T > s;
    Codec< T >::put( *s, Codec< T >::val( i ) );
    return std::string( reinterpret_cast< const char* >( ( *s ).data( ) ), T::size_in_bytes( ) );
}
static std::string offset_bytes( uint64_t v, size_t n ) { std::string r; for ( size_t i = 0; i < n; i++ ) r += char( v >> 8 * i ); return r; }

// exactly the bytes of the resources: payload and padding
struct Memory
{
    std::unique_ptr< unsigned char[] > data, index;
    size_t index_size;
    Memory( const std::string& d, const std::string& i ) : data( new unsigned char[ d.size( ) + 8 ] ), index( new unsigned char[ i.size( ) + 8 ] ), index_size( i.size( ) )
    {
        std::memcpy( data.get( ), d.data( ), d.size( ) ); std::memset( data.get( ) + d.size( ), 0x5A, 8 );
        std::memcpy( index.get( ), i.data( ), i.size( ) ); std::memset( index.get( ) + i.size( ), 0x5A, 8 );
    }
};

struct Any { Item& out; int* type; template < typename T > void put( int t, T e ) { out.emplace_back( t, Codec< T >::get( e ) ); } };
typedef n::C::MType M;
typedef n::C::KType K;
typedef n::C::HType H;

static Item only( const Item& l, std::set< int > types ) { Item r; for ( const auto& e : l ) if ( types.count( e.first ) ) r.push_back( e ); return r; }

template < typename T, typename V > static Item iterate( const V& v, size_t i, int type )
{
    Item r;
    auto it = v.template iterator< T >( i );
    for ( ; it.valid( ); ++it ) r.emplace_back( type, Codec< T >::get( *it ) );
    // the postfix operator visits the same elements
    Item s;
    for ( auto p = v.template iterator< T >( i ); p.valid( ); p++ ) s.emplace_back( type, Codec< T >::get( *p ) );
    if ( s != r ) r.emplace_back( 99, Val( ) );
    return r;
}

#define EXPECT( WHAT, GOT, WANT ) { count++; const Item g = GOT, w = WANT; if ( g != w ) return std::string( WHAT ) + " of item " + std::to_string( i ) + " visits " + text( g ) + ", expected " + text( w ); }
#define ADD( T, N ) [ & ]( n::T e ) { out.emplace_back( N, Codec< n::T >::get( e ) ); }

// a callback with a state of its own; must not be copied
struct Keep
{
    Item out;
    std::unique_ptr< int > only_one;
    template < typename T > void operator( )( T e ) { out.emplace_back( index( e ), Codec< T >::get( e ) ); }
    static int index( n::A ) { return 0; }
    static int index( n::B ) { return 1; }
    static int index( n::E ) { return 2; }
    static int index( n::W ) { return 3; }
};
// copies of an iterator are independent of each other
template < typename T, typename V > static Item copies( const V& v, size_t i, int type )
{
    Item r;
    std::vector< decltype( v.template iterator< T >( i ) ) > all;
    for ( auto it = v.template iterator< T >( i ); it.valid( ); ++it ) all.push_back( it );
    for ( size_t k = all.size( ); k-- > 0; )
    {
        auto it = all[ k ];
        r.insert( r.begin( ), { type, Codec< T >::get( *it ) } );
        for ( size_t n = k; n < all.size( ); n++, ++it ) if ( !it.valid( ) || Codec< T >::get( *it ) != Codec< T >::get( *all[ n ] ) ) r.emplace_back( 98, Val( ) );
        for ( int n = 0; n < 2; n++, ++it ) if ( it.valid( ) ) r.emplace_back( 97, Val( ) );
    }
    return r;
}
#define KEEP( TYPES, ... ) { Keep keep; v.for_each __VA_ARGS__( i, keep ); EXPECT( "for_each" #__VA_ARGS__ " with a general callback", keep.out, only( m[ i ], TYPES ) ) }
#define LIST( ... ) ( std::set< int >{ __VA_ARGS__ } )

static std::string judge( const M& v, const Items& m, bool full )
{
    if ( v.size( ) != m.size( ) ) return "has " + std::to_string( v.size( ) ) + " items";
    for ( size_t i = 0; i < m.size( ); i++ )
    {
        Item out;
        v.for_each( i, Collect{ out } );
        EXPECT( "for_each", out, m[ i ] )
        { Keep keep; v.for_each( i, keep ); EXPECT( "for_each with a callback with a state", keep.out, m[ i ] ) }
        EXPECT( "iterator<A>", ( iterate< n::A >( v, i, 0 ) ), only( m[ i ], { 0 } ) )
        EXPECT( "iterator<B>", ( iterate< n::B >( v, i, 1 ) ), only( m[ i ], { 1 } ) )
        EXPECT( "iterator<E>", ( iterate< n::E >( v, i, 2 ) ), only( m[ i ], { 2 } ) )
        EXPECT( "iterator<W>", ( iterate< n::W >( v, i, 3 ) ), only( m[ i ], { 3 } ) )
        if ( !full ) continue;
        EXPECT( "copied iterator<A>", ( copies< n::A >( v, i, 0 ) ), only( m[ i ], { 0 } ) )
        EXPECT( "copied iterator<B>", ( copies< n::B >( v, i, 1 ) ), only( m[ i ], { 1 } ) )
        EXPECT( "copied iterator<E>", ( copies< n::E >( v, i, 2 ) ), only( m[ i ], { 2 } ) )
        EXPECT( "copied iterator<W>", ( copies< n::W >( v, i, 3 ) ), only( m[ i ], { 3 } ) )
        KEEP( LIST( 0 ), < n::A > ) KEEP( LIST( 1 ), < n::B > ) KEEP( LIST( 2 ), < n::E > ) KEEP( LIST( 3 ), < n::W > )
        KEEP( LIST( 0, 1 ), < n::A, n::B > ) KEEP( LIST( 0, 2 ), < n::E, n::A > ) KEEP( LIST( 0, 3 ), < n::A, n::W > )
        KEEP( LIST( 1, 2 ), < n::E, n::B > ) KEEP( LIST( 1, 3 ), < n::B, n::W > ) KEEP( LIST( 2, 3 ), < n::W, n::E > )
        KEEP( LIST( 1, 2, 3 ), < n::B, n::E, n::W > ) KEEP( LIST( 0, 2, 3 ), < n::W, n::A, n::E > ) KEEP( LIST( 0, 1, 3 ), < n::W, n::B, n::A > )
        KEEP( LIST( 0, 1, 2 ), < n::AMutator, n::BMutator, n::E > )
        out.clear( ); v.for_each< n::A, n::B, n::E, n::W >( i, Collect{ out } ); EXPECT( "for_each<A, B, E, W>", out, m[ i ] )
        out.clear( ); v.for_each< n::B >( i, ADD( B, 1 ) ); EXPECT( "for_each<B>", out, only( m[ i ], { 1 } ) )
        out.clear( ); v.for_each< n::W >( i, ADD( W, 3 ) ); EXPECT( "for_each<W>", out, only( m[ i ], { 3 } ) )
        out.clear( ); v.for_each( i, flatdata::make_overload( ADD( A, 0 ), ADD( E, 2 ) ) ); EXPECT( "overload of A and E", out, only( m[ i ], { 0, 2 } ) )
        out.clear( ); v.for_each( i, flatdata::make_overload( ADD( W, 3 ), ADD( B, 1 ) ) ); EXPECT( "overload of W and B", out, only( m[ i ], { 1, 3 } ) )
        out.clear( ); v.for_each( i, flatdata::make_overload( ADD( W, 3 ), ADD( E, 2 ), ADD( B, 1 ), ADD( A, 0 ) ) ); EXPECT( "overload of all", out, m[ i ] )
        out.clear( ); v.for_each( i, flatdata::make_overload( ADD( A, 0 ) ) ); EXPECT( "overload of A", out, only( m[ i ], { 0 } ) )
    }
    return "";
}

// writes items of types of m: each a list of (type, value)
struct Writer4
{
    std::string data, index;
    void item( ) { index += offset_bytes( data.size( ), 5 ); }
    void add( int type, uint64_t i )
    {
        data += char( type );
        data += type == 0 ? bytes_of< n::A >( i ) : type == 1 ? bytes_of< n::B >( i ) : type == 2 ? bytes_of< n::E >( i ) : bytes_of< n::W >( i );
    }
    static Val val( int type, uint64_t i ) { return type == 0 ? Codec< n::A >::val( i ) : type == 1 ? Codec< n::B >::val( i ) : type == 2 ? Codec< n::E >::val( i ) : Codec< n::W >::val( i ); }
};
typedef n::_builtin::multivector::IndexType33 I33;
typedef n::_builtin::multivector::IndexType9 I9;
typedef n::_builtin::multivector::IndexType64 I64;
// base: bytes that would come before the data (never accessed)
template < typename V, typename I > static V view( const Memory& m, uint64_t base = 0 ) { return V( flatdata::ArrayView< I >( m.index.get( ), m.index.get( ) + m.index_size ), reinterpret_cast< const unsigned char* >( reinterpret_cast< uintptr_t >( m.data.get( ) ) - base ) ); }

static void contents( size_t n, const std::vector< std::vector< int > >& all, size_t part, size_t parts )
{
    sequences( n, all.size( ), part, parts, [ & ]( const std::vector< size_t >& which ) {
        Writer4 w;
        Items m;
        uint64_t i = 0;
        std::string name = "m ";
        for ( size_t k : which )
        {
            w.item( );
            m.emplace_back( );
            for ( int t : all[ k ] ) { w.add( t, i % 6 ); m.back( ).emplace_back( t, Writer4::val( t, i % 6 ) ); i++; name += "ABEW"[ t ]; }
            name += '|';
        }
        w.item( ); // sentinel
        Memory memory( w.data, w.index );
        const std::string msg = judge( view< M, I33 >( memory ), m, n <= 2 );
        if ( !msg.empty( ) ) fail( name, msg );
        if ( kinds.size( ) < 4000 ) kinds.insert( name );
    } );
}

// every type index that does not exist, at every element of all small contents
template < typename F > static bool throws( F&& f ) { try { f( ); } catch ( const std::runtime_error& ) { return true; } return false; }
static void bad( size_t part, size_t parts )
{
    const auto all = lists( 3, 4 );
    for ( size_t k = part; k < all.size( ); k += parts )
        for ( size_t at = 0; at < all[ k ].size( ); at++ )
            for ( int type = 4; type < 256; type += type < 8 || type > 250 ? 1 : 9 )
            {
                Writer4 w;
                Item before, other;
                w.item( ); w.add( 3, 2 );
                w.item( );
                size_t position = 0;
                for ( size_t j = 0; j < all[ k ].size( ); j++ )
                {
                    if ( j == at ) position = w.data.size( );
                    w.add( all[ k ][ j ], j );
                    if ( j < at ) before.emplace_back( all[ k ][ j ], Writer4::val( all[ k ][ j ], j ) );
                }
                w.data[ position ] = char( type );
                w.item( ); w.add( 0, 3 );
                w.item( );
                Memory memory( w.data, w.index );
                const M v = view< M, I33 >( memory );
                std::string name = "bad ";
                for ( int t : all[ k ] ) name += "ABEW"[ t ];
                name += " at " + std::to_string( at ) + " type " + std::to_string( type );
                count++;
                Item out;
                if ( !throws( [ & ] { v.for_each( 1, Collect{ out } ); } ) ) { fail( name, "for_each reports no error" ); continue; }
                if ( out != before ) fail( name, "for_each visits " + text( out ) + " before the error" );
                out.clear( );
                if ( !throws( [ & ] { v.for_each< n::B >( 1, ADD( B, 1 ) ); } ) ) fail( name, "for_each<B> reports no error" );
                if ( !throws( [ & ] { for ( auto it = v.iterator< n::A >( 1 ); it.valid( ); ++it ) { } } ) ) fail( name, "iterator<A> reports no error" );
                if ( !throws( [ & ] { for ( auto it = v.iterator< n::E >( 1 ); it.valid( ); ++it ) { } } ) ) fail( name, "iterator<E> reports no error" );
                // the other items are independent
                out.clear( ); v.for_each( 0, Collect{ out } );
                if ( out != Item{ { 3, Writer4::val( 3, 2 ) } } ) fail( name, "the item before is changed" );
                out.clear( ); v.for_each( 2, Collect{ out } );
                if ( out != Item{ { 0, Writer4::val( 0, 3 ) } } ) fail( name, "the item after is changed" );
            }
}

struct CollectK { Item& out; void operator( )( n::W e ) { out.emplace_back( 0, Codec< n::W >::get( e ) ); } void operator( )( n::E e ) { out.emplace_back( 1, Codec< n::E >::get( e ) ); } };
struct CollectH { Item& out; void operator( )( n::Z e ) { out.emplace_back( 0, Codec< n::Z >::get( e ) ); } void operator( )( n::E e ) { out.emplace_back( 1, Codec< n::E >::get( e ) ); } };

// other index widths and many items
template < typename V, typename I, typename T, typename C > static void other( const char* kind, size_t width, size_t items, unsigned pattern, uint64_t base = 0 )
{
    std::string data, index;
    Items m;
    for ( size_t i = 0; i < items; i++ )
    {
        index += offset_bytes( base + data.size( ), width );
        m.emplace_back( );
        const unsigned bits = pattern >> ( i % 8 * 2 );
        if ( bits & 1 ) { data += char( 0 ); data += bytes_of< T >( i ); m.back( ).emplace_back( 0, Codec< T >::val( i ) ); }
        if ( bits & 2 ) { data += char( 1 ); data += bytes_of< n::E >( i ); m.back( ).emplace_back( 1, Codec< n::E >::val( i ) ); }
    }
    if ( width == 2 && data.size( ) > 511 ) return;
    index += offset_bytes( base + data.size( ), width );
    Memory memory( data, index );
    // as if that many bytes came before
    const V v = view< V, I >( memory, base );
    const std::string name = std::string( kind ) + " items " + std::to_string( items ) + " pattern " + std::to_string( pattern ) + ( base ? " after " + std::to_string( base ) + " bytes" : "" );
    count++;
    if ( v.size( ) != items ) return fail( name, "has " + std::to_string( v.size( ) ) + " items" );
    for ( size_t i = 0; i < items; i++ )
    {
        Item out;
        v.for_each( i, C{ out } );
        if ( out != m[ i ] ) return fail( name, "item " + std::to_string( i ) + " visits " + text( out ) + ", expected " + text( m[ i ] ) );
        if ( iterate< T >( v, i, 0 ) != only( m[ i ], { 0 } ) || iterate< n::E >( v, i, 1 ) != only( m[ i ], { 1 } ) ) return fail( name, "iterators of item " + std::to_string( i ) + " differ" );
    }
}

int main( int, char** argv )
{
    const std::string mode = argv[ 1 ];
    const size_t n = atoi( argv[ 2 ] ), part = atoi( argv[ 3 ] ), parts = atoi( argv[ 4 ] );
    if ( mode == "m" )
    {
        if ( n == 2 ) { for ( size_t k = 0; k <= 2; k++ ) contents( k, lists( 3, 4 ), part, parts ); contents( 1, lists( 6, 4 ), part, parts ); contents( 3, lists( 2, 4 ), part, parts ); contents( 5, lists( 1, 4 ), part, parts ); }
        if ( n == 3 ) { contents( 3, lists( 3, 4 ), part, parts ); contents( 2, lists( 4, 4 ), part, parts ); contents( 4, lists( 2, 4 ), part, parts ); }
    }
    if ( mode == "bad" ) bad( part, parts );
    if ( mode == "k" ) for ( unsigned p = part; p < 65536; p += parts ) for ( size_t i : { 1, 3, 8, 9 } ) if ( i > 3 || !( p >> 2 * i ) ) other< K, I9, n::W, CollectK >( "k", 2, i, p );
    if ( mode == "k" ) for ( unsigned p = part; p < 256; p += parts ) for ( size_t i = 0; i < 100; i++ ) other< K, I9, n::W, CollectK >( "k", 2, i, p * 257 );
    if ( mode == "h" ) for ( unsigned p = part; p < 65536; p += parts * ( n == 2 ? 5 : 1 ) ) for ( size_t i : { 0, 1, 8, 40 } ) other< H, I64, n::Z, CollectH >( "h", 8, i, p );
    // items far into the data, around the limits of 31, 32, 33 and 40 bits
    if ( mode == "far" ) for ( int bits : { 31, 32, 33, 40 } ) for ( int64_t d = -40; d <= 4; d++ ) for ( unsigned p = part; p < 4096; p += parts * ( n == 2 ? 61 : 7 ) ) other< H, I64, n::Z, CollectH >( "far", 8, 8, p * 16, ( uint64_t( 1 ) << bits ) + d );
    return finish( kinds );
}
