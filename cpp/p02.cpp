// P02: every Reader/Writer instantiation (offset, width, type, optional, range) against a 128 bit integer model.
// Compile time parameters: OFF (bit offset), TIER (0 quick, 1 thorough), FROM, TO (bit widths).
// The instantiations are only thin thunks; the exploration itself is not a template.
#include <boost/optional.hpp>
#include <flatdata/internal/Reader.h>
#include <flatdata/internal/Writer.h>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <type_traits>
#include <vector>

typedef unsigned __int128 Bits;
typedef __int128 Big;

static unsigned long long evaluations = 0, nontrivial = 0, instantiations = 0;
static int failures = 0;

template < typename T > struct Name { static const char* get( ) { return "?"; } };
#define NAME( T ) template <> struct Name< T > { static const char* get( ) { return #T; } };
NAME( bool ) NAME( uint8_t ) NAME( int8_t ) NAME( uint16_t ) NAME( int16_t ) NAME( uint32_t ) NAME( int32_t ) NAME( uint64_t ) NAME( int64_t )
enum class EU8 : uint8_t { A }; enum class ES8 : int8_t { A }; enum class EU16 : uint16_t { A }; enum class ES16 : int16_t { A };
enum class EU32 : uint32_t { A }; enum class ES32 : int32_t { A }; enum class EU64 : uint64_t { A }; enum class ES64 : int64_t { A };
enum class EB : bool { A };
NAME( EB ) NAME( EU8 ) NAME( ES8 ) NAME( EU16 ) NAME( ES16 ) NAME( EU32 ) NAME( ES32 ) NAME( EU64 ) NAME( ES64 )

template < typename T, bool e = std::is_enum< T >::value > struct Under { typedef T type; };
template < typename T > struct Under< T, true > { typedef typename std::underlying_type< T >::type type; };

static std::string hex( const unsigned char* p, size_t n )
{
    std::string r; char b[ 4 ];
    for ( size_t i = 0; i < n; i++ ) { snprintf( b, 4, "%02x", p[ i ] ); r += b; }
    return r;
}

struct Field
{
    const char* type; const char* kind; int offset, width; bool is_signed, has_limits;
    Big min, max;                      // as the library states them
    Big invalid;                       // optional only
    // plain
    bool ( *write )( unsigned char*, int64_t );   // true: returns itself
    int64_t ( *read )( const unsigned char* );
    int64_t ( *read_writer )( unsigned char* );
    int64_t ( *as )( const unsigned char* );
    // optional
    bool ( *assign )( unsigned char*, int64_t, int how );
    void ( *inspect )( unsigned char*, bool present[ 5 ], int64_t value[ 5 ] );
    // range
    void ( *range )( const unsigned char*, int64_t value[ 4 ] );
    int stride;
};

static void fail( const Field& f, const char* what, Big value, Bits bg, const std::string& detail )
{
    if ( failures++ < 12 )
        printf( "FAIL|%s Member<%s, %d, %d>|%s: value %lld over bits %016llx%016llx: %s\n", f.kind, f.type, f.offset, f.width, what,
                (long long)value, (unsigned long long)( bg >> 64 ), (unsigned long long)bg, detail.c_str( ) );
}

static Big lowest( const Field& f ) { return f.is_signed ? -( Big( 1 ) << ( f.width - 1 ) ) : 0; }
static Big highest( const Field& f ) { return f.is_signed ? ( Big( 1 ) << ( f.width - 1 ) ) - 1 : ( Big( 1 ) << f.width ) - 1; }

static std::vector< Big > values( const Field& f, int full )
{
    const int W = f.width;
    const Big lo = lowest( f ), hi = highest( f );
    std::set< Big > v;
    if ( W <= full ) { for ( Big x = lo; x <= hi; x++ ) v.insert( x ); return { v.begin( ), v.end( ) }; }
    auto add = [&]( Bits p ) {
        p &= ( Bits( 1 ) << W ) - 1;
        Big x = (Big)p; if ( f.is_signed && ( p >> ( W - 1 ) & 1 ) ) x -= Big( 1 ) << W;
        v.insert( x ); };
    for ( Big x : { lo, lo + 1, hi, hi - 1, Big( 0 ), Big( 1 ) } ) v.insert( x );
    for ( int i = 0; i < W; i++ ) { add( Bits( 1 ) << i ); if ( TIER || i % 8 == 7 || i == W - 1 ) add( ~( Bits( 1 ) << i ) ); }
    for ( uint64_t p : { 0xA5A5A5A5A5A5A5A5ull, 0x0123456789ABCDEFull, 0xFEDCBA9876543210ull } ) add( p );
    return { v.begin( ), v.end( ) };
}

static std::vector< Bits > backgrounds( int nbits )
{
    const Bits full = nbits >= 128 ? ~Bits( 0 ) : ( Bits( 1 ) << nbits ) - 1;
    Bits a5 = 0; for ( int i = 0; i < 16; i++ ) a5 = a5 << 8 | 0xA5;
    std::vector< Bits > r = { 0, full, a5 & full, ~a5 & full };
    for ( int i = 0; i < nbits; i++ )
        if ( TIER || i % 8 == 0 ) { r.push_back( Bits( 1 ) << i ); r.push_back( full ^ Bits( 1 ) << i ); }
    return r;
}

static void store( unsigned char* p, Bits b, size_t n ) { for ( size_t i = 0; i < n; i++ ) p[ i ] = (unsigned char)( b >> 8 * i ); }

static void explore_plain( const Field& f )
{
    const int need = ( f.offset + f.width + 7 ) / 8, total = need + 8;
    const Bits mask = ( ( Bits( 1 ) << f.width ) - 1 ) << f.offset;
    auto raw = [&]( Big v ) { return ( (Bits)v & ( ( Bits( 1 ) << f.width ) - 1 ) ) << f.offset; };
    instantiations++;
    if ( f.has_limits && ( f.min != lowest( f ) || f.max != highest( f ) ) ) fail( f, "limits", f.max, 0, "min/max are wrong" );
    // exactly the bytes of structure and padding, so that ASan sees every access outside of them
    std::unique_ptr< unsigned char[] > buffer( new unsigned char[ total ] ), expected( new unsigned char[ total ] );
    int k = 0;
    for ( Bits bg : backgrounds( need * 8 ) )
        for ( Big v : values( f, k++ < 4 ? ( TIER ? 9 : 6 ) : 3 ) )
            for ( int pad : { 0, 255 } )
            {
                memset( buffer.get( ), pad, total ); store( buffer.get( ), bg, need );
                memset( expected.get( ), pad, total ); store( expected.get( ), ( bg & ~mask ) | raw( v ), need );
                evaluations++; nontrivial += bg != 0 && v != 0;
                if ( !f.write( buffer.get( ), (int64_t)v ) ) fail( f, "assignment", v, bg, "does not return itself" );
                if ( memcmp( buffer.get( ), expected.get( ), total ) )
                {
                    fail( f, "write", v, bg, hex( buffer.get( ), total ) + " expected " + hex( expected.get( ), total ) );
                    memcpy( buffer.get( ), expected.get( ), total );
                }
                const int64_t a = f.read( buffer.get( ) ), b = f.read_writer( buffer.get( ) ), c = f.as( buffer.get( ) );
                if ( a != (int64_t)v ) fail( f, "read", v, bg, "reads " + std::to_string( a ) );
                if ( b != (int64_t)v ) fail( f, "read through writer", v, bg, "reads " + std::to_string( b ) );
                if ( c != (int64_t)v ) fail( f, "as", v, bg, "reads " + std::to_string( c ) );
            }
}

static void explore_optional( const Field& f )
{
    const int need = ( f.offset + f.width + 7 ) / 8, total = need + 8;
    const Bits mask = ( ( Bits( 1 ) << f.width ) - 1 ) << f.offset;
    auto raw = [&]( Big v ) { return ( (Bits)v & ( ( Bits( 1 ) << f.width ) - 1 ) ) << f.offset; };
    instantiations++;
    std::unique_ptr< unsigned char[] > buffer( new unsigned char[ total ] ), expected( new unsigned char[ total ] );
    auto all = values( f, 4 );
    all.push_back( f.invalid );
    auto bgs = backgrounds( need * 8 );
    if ( !TIER ) bgs.resize( 4 );
    for ( Bits bg : bgs )
        for ( Big v : all )
            for ( int how = 0; how < 4; how++ )
            {
                // 0: assign value, 1: assign optional, 2: assign none, 3: read only
                const Big stored = how == 2 ? f.invalid : v;
                memset( expected.get( ), 0xC3, total ); store( expected.get( ), ( bg & ~mask ) | raw( stored ), need );
                memset( buffer.get( ), 0xC3, total ); store( buffer.get( ), bg, need );
                if ( how == 3 ) memcpy( buffer.get( ), expected.get( ), total );
                else if ( !f.assign( buffer.get( ), (int64_t)v, how ) ) fail( f, "assignment", v, bg, "does not return itself" );
                evaluations++; nontrivial += stored == f.invalid;
                if ( memcmp( buffer.get( ), expected.get( ), total ) )
                {
                    fail( f, how == 2 ? "write none" : "write", v, bg, hex( buffer.get( ), total ) + " expected " + hex( expected.get( ), total ) );
                    memcpy( buffer.get( ), expected.get( ), total );
                }
                bool present[ 5 ]; int64_t value[ 5 ];
                f.inspect( buffer.get( ), present, value );
                for ( int i = 0; i < 5; i++ )
                {
                    if ( present[ i ] != ( stored != f.invalid ) ) fail( f, "presence", stored, bg, present[ i ] ? "reads as present" : "reads as absent" );
                    else if ( present[ i ] && value[ i ] != (int64_t)stored ) fail( f, "value", stored, bg, "reads " + std::to_string( value[ i ] ) );
                }
            }
}

static void explore_range( const Field& f )
{
    // two consecutive structures; the structure may be larger than the field
    const int total = 2 * f.stride + 8;
    instantiations++;
    std::unique_ptr< unsigned char[] > buffer( new unsigned char[ total ] );
    auto all = values( f, 2 );
    for ( int pad : { 0, 255 } )
        for ( Big a : all )
            for ( Big b : all )
            {
                memset( buffer.get( ), pad, total );
                for ( int i = 0; i < f.width; i++ )
                    for ( int j : { 0, 1 } )
                    {
                        unsigned char& c = buffer[ j * f.stride + ( f.offset + i ) / 8 ];
                        const int bit = ( f.offset + i ) % 8;
                        c = (unsigned char)( ( c & ~( 1 << bit ) ) | (int)( ( j ? b : a ) >> i & 1 ) << bit );
                    }
                int64_t value[ 4 ];
                f.range( buffer.get( ), value );
                evaluations++; nontrivial += a != b;
                if ( value[ 0 ] != (int64_t)a || value[ 1 ] != (int64_t)b || value[ 2 ] != (int64_t)a || value[ 3 ] != (int64_t)b )
                    fail( f, "range", a, (Bits)b, "reads " + std::to_string( value[ 0 ] ) + ", " + std::to_string( value[ 1 ] ) );
            }
}


template < typename T, int OFFSET, int W > void plain( )
{
    typedef flatdata::Writer< T, OFFSET, W, ( OFFSET + W + 7 ) / 8 > Wr;
    typedef flatdata::Reader< T, OFFSET, W, ( OFFSET + W + 7 ) / 8 > Rd;
    typedef typename Under< T >::type B;
    static_assert( (int)Rd::bit_width == W && (int)Wr::bit_width == W, "bit_width" );
    Field f = { };
    f.type = Name< T >::get( ); f.kind = "plain"; f.offset = OFFSET; f.width = W; f.is_signed = std::is_signed< B >::value;
    f.has_limits = !std::is_enum< T >::value;
    f.min = (Big)(B)Rd::min; f.max = (Big)(B)Rd::max;
    f.write = []( unsigned char* p, int64_t v ) { Wr w{ p }; Wr& s = ( w = static_cast< T >( (B)v ) ); return &s == &w; };
    f.read = []( const unsigned char* p ) { Rd r{ p }; T t = r; return (int64_t)(B)t; };
    f.read_writer = []( unsigned char* p ) { Wr w{ p }; T t = w; return (int64_t)(B)t; };
    f.as = []( const unsigned char* p ) { Rd r{ p }; return (int64_t)r.template as< B >( ); };
    explore_plain( f );
}

template < typename T, int OFFSET, int W, T INVALID > void optional( )
{
    typedef flatdata::Writer< flatdata::Tagged< T, INVALID >, OFFSET, W, ( OFFSET + W + 7 ) / 8 > Wr;
    typedef flatdata::Reader< flatdata::Tagged< T, INVALID >, OFFSET, W, ( OFFSET + W + 7 ) / 8 > Rd;
    Field f = { };
    f.type = Name< T >::get( ); f.kind = "optional"; f.offset = OFFSET; f.width = W; f.is_signed = std::is_signed< T >::value;
    f.invalid = (Big)INVALID;
    f.assign = []( unsigned char* p, int64_t v, int how ) {
        Wr w{ p }; Wr* same = &w;
        if ( how == 0 ) same = &( w = (T)v );
        else if ( how == 1 ) same = &( w = boost::optional< T >( (T)v ) );
        else same = &( w = boost::optional< T >( ) );
        return same == &w; };
    f.inspect = []( unsigned char* p, bool present[ 5 ], int64_t value[ 5 ] ) {
        Rd r{ p }; Wr w{ p };
        boost::optional< T > o = r, ow = w;
        boost::optional< int64_t > o64 = r;
        present[ 0 ] = bool( r ); value[ 0 ] = (int64_t)*r;
        present[ 1 ] = bool( w ); value[ 1 ] = (int64_t)*w;
        present[ 2 ] = bool( o ); value[ 2 ] = o ? (int64_t)*o : 0;
        present[ 3 ] = bool( ow ); value[ 3 ] = ow ? (int64_t)*ow : 0;
        present[ 4 ] = bool( o64 ); value[ 4 ] = o64 ? *o64 : 0; };
    explore_optional( f );
}

template < typename T, int OFFSET, int W > void optionals( )
{
    const bool s = std::is_signed< T >::value;
    optional< T, OFFSET, W, (T)0 >( );
    optional< T, OFFSET, W, (T)( s ? ( Bits( 1 ) << ( W - 1 ) ) - 1 : ( Bits( 1 ) << W ) - 1 ) >( );
    if constexpr ( s )
    {
        optional< T, OFFSET, W, (T)( -( Big( 1 ) << ( W - 1 ) ) ) >( );
        optional< T, OFFSET, W, (T)-1 >( );
    }
}

template < typename T, int OFFSET, int W > void range( )
{
    Field f = { };
    constexpr int stride = ( OFFSET + W + 7 ) / 8 + W % 3;
    f.type = Name< T >::get( ); f.kind = "range"; f.offset = OFFSET; f.width = W; f.stride = stride;
    f.range = []( const unsigned char* p, int64_t v[ 4 ] ) {
        flatdata::Reader< std::pair< T, T >, OFFSET, W, stride > r{ p };
        std::pair< T, T > a = r;
        std::pair< uint64_t, uint64_t > b = r;
        v[ 0 ] = (int64_t)a.first; v[ 1 ] = (int64_t)a.second; v[ 2 ] = (int64_t)b.first; v[ 3 ] = (int64_t)b.second; };
    explore_range( f );
}

template < typename T, typename E, int W, int OFFSET > void widths_of( )
{
    if constexpr ( W <= (int)sizeof( T ) * 8 )
    {
        plain< T, OFFSET, W >( );
        plain< E, OFFSET, W >( );
        // subset of the wrappers, which only forward
        if constexpr ( TIER || ( ( W <= 2 || W % 8 == 0 || W % 8 == 7 || W % 8 == 1 || W >= 57 ) && ( sizeof( T ) * 8 < 2 * W || W == 1 ) ) )
        {
            if constexpr ( TIER || OFFSET % 3 == 0 || W >= 57 )
            {
                optionals< T, OFFSET, W >( );
                if constexpr ( std::is_unsigned< T >::value ) range< T, OFFSET, W >( );
            }
        }
    }
}

template < int W > void width( )
{
#define ONE( T, E ) widths_of< T, E, W, OFF >( );
    ONE( uint8_t, EU8 ) ONE( int8_t, ES8 ) ONE( uint16_t, EU16 ) ONE( int16_t, ES16 ) ONE( uint32_t, EU32 ) ONE( int32_t, ES32 )
    ONE( uint64_t, EU64 ) ONE( int64_t, ES64 )
}

template < int... W > void all( std::integer_sequence< int, W... > ) { int x[] = { ( width< FROM + W >( ), 0 )... }; (void)x; }

int main( )
{
    setvbuf( stdout, 0, _IOLBF, 0 );
    if ( FROM == 1 )
    {
        plain< bool, OFF, 1 >( ); plain< EB, OFF, 1 >( );
        optional< bool, OFF, 1, true >( ); optional< bool, OFF, 1, false >( );
    }
    all( std::make_integer_sequence< int, TO - FROM + 1 >( ) );
    // fields further into a structure
    if constexpr ( FROM == 1 )
    {
        plain< uint8_t, OFF + 8, 5 >( ); plain< int8_t, OFF + 24, 7 >( ); plain< uint32_t, OFF + 32, 30 >( ); plain< int64_t, OFF + 40, 41 >( );
        plain< bool, OFF + 48, 1 >( ); plain< int16_t, OFF + 16, 1 >( );
    }
    if constexpr ( TO == 64 ) { plain< uint64_t, OFF + 32, 64 >( ); plain< int64_t, OFF + 56, 64 >( ); plain< uint64_t, OFF + 56, 58 >( ); }
    printf( "COUNT|%llu|%llu|%llu\n", evaluations, nontrivial, instantiations );
    return failures ? 1 : 0;
}
