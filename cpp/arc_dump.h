// Everything visible of an opened archive of lib/fixture.py: "open\tresource=content\t...\tdescription"
static std::string escape( const std::string& s );
static std::string hexs( const unsigned char* p, size_t n )
{
    std::string r; char b[ 4 ];
    for ( size_t i = 0; i < n; i++ ) { snprintf( b, 4, "%02x", p[ i ] ); r += b; }
    return r;
}
static std::string show( n::A a ) { std::ostringstream s; s << (uint64_t)a.a << ',' << (int64_t)a.b << ',' << (uint64_t)a.c << ',' << (int64_t)a.d; return s.str( ); }
static std::string show( n::B b ) { std::ostringstream s; s << (uint64_t)b.x << ',' << (uint64_t)b.y << ',' << (int64_t)b.z; return s.str( ); }
template < typename T > static std::string show( flatdata::ArrayView< T > v )
{
    if ( !v ) return "-";
    std::string r = "[";
    for ( auto e : v ) r += show( e ) + ";";
    return r + "]";
}
static std::string show( flatdata::MemoryDescriptor d ) { return d ? "<" + hexs( d.data( ), d.size_in_bytes( ) ) + ">" : std::string( "-" ); }
struct ShowMv { std::string& r;
    void operator( )( n::A a ) { r += "0:" + show( a ) + ";"; }
    void operator( )( n::B b ) { r += "1:" + show( b ) + ";"; } };
struct ShowOmv { std::string& r; void operator( )( n::B b ) { r += "0:" + show( b ) + ";"; } };
template < typename V, typename S > static std::string show_mv( const V& v )
{
    if ( !v ) return "-";
    std::string r = "{";
    try { for ( size_t i = 0; i < v.size( ); i++ ) { v.for_each( i, S{ r } ); r += "|"; } }
    catch ( const std::runtime_error& e ) { r += "error"; }
    return r + "}";
}
static void show_sub( const char* name, bool loaded, const n::Sub& s )
{
    std::cout << '\t' << name << '=' << ( loaded ? "yes" : "-" );
    std::cout << '\t' << name << "/v=" << ( loaded ? show( s.v( ) ) : std::string( "-" ) );
    std::cout << '\t' << name << "/o=" << ( loaded && s.o( ) ? show( *s.o( ) ) : std::string( "-" ) );
}
static void report( std::shared_ptr< flatdata::ResourceStorage > storage )
{
    n::Arc a = n::Arc::open( storage );
    std::cout << ( a.is_open( ) ? "open" : "closed" );
    std::cout << "\tinst=" << ( a.inst( ) ? show( a.inst( ) ) : std::string( "-" ) );
    std::cout << "\toinst=" << ( a.oinst( ) ? show( *a.oinst( ) ) : std::string( "-" ) );
    std::cout << "\tvec=" << show( a.vec( ) );
    std::cout << "\tovec=" << ( a.ovec( ) ? show( *a.ovec( ) ) : std::string( "-" ) );
    std::cout << "\tmv=" << show_mv< n::Arc::MvType, ShowMv >( a.mv( ) );
    std::cout << "\tomv=" << ( a.omv( ) ? show_mv< n::Arc::OmvType, ShowOmv >( *a.omv( ) ) : std::string( "-" ) );
    std::cout << "\traw=" << show( a.raw( ) );
    std::cout << "\toraw=" << ( a.oraw( ) ? show( *a.oraw( ) ) : std::string( "-" ) );
    show_sub( "sub", bool( a.sub( ) ), a.sub( ) );
    show_sub( "osub", bool( a.osub( ) ), a.osub( ) ? *a.osub( ) : n::Sub( ) );
    std::cout << '\t' << escape( a.describe( ) );
}
