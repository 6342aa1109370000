// P38: every sequence of operations on handles of archives (see checks/P38.py).
// argv: mode(mem|dir|tar) depth part parts directory current-file [sequence]
// directory holds g0/, g1/ (two archives) or g0.tar, g1.tar; the archive under test is at directory/p<part>/live
#include "s.hpp"
#include <flatdata/flatdata.h>
#include <flatdata/TarArchiveResourceStorage.h>
#include <dirent.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

#define main unused_main
#define report unused_report
static std::string escape( const std::string& s ) { return s; }
#include "arc_dump.h"
#undef main
#undef report

using Storage = std::shared_ptr< flatdata::ResourceStorage >;
static std::string mode, root, live;
static char* current;
static long sequences = 0, reads = 0;
static std::set< std::string > states;

static std::string text( const n::Sub& s )
{
    if ( !s.is_open( ) ) return "closed";
    return "v=" + show( s.v( ) ) + "\to=" + ( s.o( ) ? show( *s.o( ) ) : std::string( "-" ) ) + "\tname=" + s.name( );
}
static std::string text( const n::Arc& a )
{
    if ( !a.is_open( ) ) return "closed";
    std::string r = "inst=" + show( a.inst( ) ) + "\toinst=" + ( a.oinst( ) ? show( *a.oinst( ) ) : std::string( "-" ) ) + "\tvec=" + show( a.vec( ) )
                    + "\tovec=" + ( a.ovec( ) ? show( *a.ovec( ) ) : std::string( "-" ) ) + "\tmv=" + show_mv< n::Arc::MvType, ShowMv >( a.mv( ) )
                    + "\tomv=" + ( a.omv( ) ? show_mv< n::Arc::OmvType, ShowOmv >( *a.omv( ) ) : std::string( "-" ) ) + "\traw=" + show( a.raw( ) )
                    + "\toraw=" + ( a.oraw( ) ? show( *a.oraw( ) ) : std::string( "-" ) ) + "\tsub=" + text( a.sub( ) )
                    + "\tosub=" + ( a.osub( ) ? text( *a.osub( ) ) : std::string( "-" ) );
    if ( a.describe( ).find( "FATAL" ) != std::string::npos ) r += "\tdescription";
    return r;
}

static std::string slurp( const std::string& p ) { std::ifstream f( p, std::ios::binary ); std::stringstream s; s << f.rdbuf( ); return s.str( ); }
static void list( const std::string& base, const std::string& rel, std::vector< std::string >& out )
{
    DIR* d = opendir( ( base + rel ).c_str( ) );
    if ( !d ) return;
    while ( auto* e = readdir( d ) )
    {
        std::string name = e->d_name;
        if ( name == "." || name == ".." ) continue;
        struct stat st;
        stat( ( base + rel + name ).c_str( ), &st );
        if ( S_ISDIR( st.st_mode ) ) list( base, rel + name + "/", out ); else out.push_back( rel + name );
    }
    closedir( d );
}
static std::map< std::string, std::string > contents[ 2 ];

static Storage make( int gen )
{
    if ( mode == "dir" ) return flatdata::FileResourceStorage::open( live.c_str( ) );
    if ( mode == "tar" ) return flatdata::TarArchiveResourceStorage::create( live.c_str( ) );
    auto s = flatdata::MemoryResourceStorage::create( );
    for ( auto& f : contents[ gen ] )
        s->assign_value( f.first.c_str( ), flatdata::MemoryDescriptor( reinterpret_cast< const unsigned char* >( f.second.data( ) ), f.second.size( ) ) );
    s->create_directory( "sub" );
    s->create_directory( "osub" );
    return Storage( std::move( s ) );
}

template < typename T > struct Slot
{
    std::unique_ptr< T > value{ new T };
    int storage = 0;            // 0: empty, -1: moved from
    std::string want = "closed";
};

struct World
{
    Storage s;
    int s_id = 0, s_fresh = 0, next = 1;
    int s_gen = 0;
    Slot< n::Arc > a, b;
    Slot< n::Sub > c;
    flatdata::ArrayView< n::A > w;
    int w_id = 0;
    int at = 0;                 // what lies there: generation, or -1
    int flip = 0;
    std::string log, error;
};

static std::string texts[ 2 ], subs[ 2 ], osubs[ 2 ];
static std::string W_TEXT;
static int other = -1;

// what lies at `live` now; `gen` -1: nothing
static void put( World& x, int gen )
{
    const std::string ext = mode == "tar" ? ".tar" : "", trash = root + "/trash";
    if ( x.at >= 0 ) rename( live.c_str( ), trash.c_str( ) );
    if ( x.at >= 0 )
    {
        std::vector< std::string > files;
        if ( mode == "dir" ) { list( trash + "/", "", files ); for ( auto& f : files ) unlink( ( trash + "/" + f ).c_str( ) ); rmdir( ( trash + "/sub" ).c_str( ) ); rmdir( ( trash + "/osub" ).c_str( ) ); rmdir( trash.c_str( ) ); }
        else unlink( trash.c_str( ) );
    }
    x.at = gen;
    if ( gen < 0 ) return;
    if ( mode == "dir" )
    {
        mkdir( live.c_str( ), 0755 );
        mkdir( ( live + "/sub" ).c_str( ), 0755 );
        mkdir( ( live + "/osub" ).c_str( ), 0755 );
        for ( auto& f : contents[ gen ] ) { std::ofstream o( live + "/" + f.first, std::ios::binary ); o << f.second; }
    }
    else { std::ofstream o( live, std::ios::binary ); o << contents[ gen ][ "tar" ]; }
    (void)ext;
}

static std::string merge_ok( const std::string& got )
{
    if ( got == "closed" ) return "";
    for ( auto p : { &texts[ 0 ], &texts[ 1 ] } ) if ( got == *p ) return "";
    // of a storage that was read before the archive was replaced: each resource is of the one or of the other
    std::stringstream g( got );
    std::string part;
    while ( std::getline( g, part, '\t' ) )
        if ( ( "\t" + texts[ 0 ] + "\t" ).find( "\t" + part + "\t" ) == std::string::npos && ( "\t" + texts[ 1 ] + "\t" ).find( "\t" + part + "\t" ) == std::string::npos ) return part;
    return "";
}

static void open_into( World& x, Slot< n::Arc >& t )
{
    *t.value = n::Arc::open( x.s );
    t.storage = x.s_id;
    std::string got = text( *t.value );
    // certain: nothing was read through this storage before, or what lies there is still what it was then
    if ( mode == "mem" || mode == "tar" ) { t.want = x.s_gen < 0 ? "closed" : texts[ x.s_gen ]; }
    else if ( x.s_fresh ) { t.want = x.at < 0 ? "closed" : texts[ x.at ]; x.s_gen = x.at; x.s_fresh = 0; }
    else if ( x.s_gen == x.at && x.s_gen >= 0 ) t.want = texts[ x.at ];
    else
    {
        t.want = got;
        std::string bad = merge_ok( got );
        if ( !bad.empty( ) ) x.error = "opened by a storage that was read before: " + bad;
        x.s_gen = -2;
    }
}

static bool apply( World& x, char op )
{
    switch ( op )
    {
    case 's':
        if ( x.s ) return false;
        x.s = make( x.flip );
        x.s_gen = mode == "mem" ? x.flip : x.at;
        x.flip ^= 1;
        x.s_id = x.next++;
        x.s_fresh = 1;
        if ( !x.s && x.at >= 0 ) x.error = "no storage";
        if ( x.s && mode == "dir" && x.at < 0 ) x.error = "a storage of nothing";
        if ( !x.s ) x.s_id = 0;
        return true;
    case 'W':
    {
        if ( x.s || mode == "tar" ) return false;
        const std::string fresh = root + "/built" + std::to_string( x.next );
        x.s = mode == "dir" ? Storage( flatdata::FileResourceStorage::create( fresh.c_str( ) ) ) : Storage( flatdata::MemoryResourceStorage::create( ) );
        x.s_id = x.next++;
        x.s_fresh = 0;
        x.s_gen = -2;
        auto builder = n::SubBuilder::open( x.s );
        auto v = builder.start_v( );
        for ( int i = 0; i < 3; i++ ) { auto e = v.grow( ); e.a = i + 1; e.b = -i; }
        x.w = v.close( );
        x.w_id = x.s_id;
        if ( mode == "dir" ) { for ( auto f : { "v", "v.schema", "Sub.archive", "Sub.archive.schema" } ) unlink( ( fresh + "/" + f ).c_str( ) ); if ( rmdir( fresh.c_str( ) ) ) x.error = "the builder left something behind"; }
        return true;
    }
    case 'x': if ( !x.s ) return false; x.s.reset( ); x.s_id = 0; return true;
    case 'o': if ( !x.s || x.s_id == x.w_id ) return false; open_into( x, x.a ); return true;
    case 'p': if ( !x.s || x.s_id == x.w_id ) return false; open_into( x, x.b ); return true;
    case 'c': if ( x.a.storage < 0 || ( !x.a.storage && !x.b.storage ) ) return false; *x.b.value = *x.a.value; x.b.storage = x.a.storage; x.b.want = x.a.want; return true;
    case 'm': if ( x.a.storage <= 0 ) return false; *x.b.value = std::move( *x.a.value ); x.b.storage = x.a.storage; x.b.want = x.a.want; x.a.storage = -1; return true;
    case 'w': if ( x.a.storage < 0 || x.b.storage < 0 || ( !x.a.storage && !x.b.storage ) ) return false; std::swap( *x.a.value, *x.b.value ); std::swap( x.a.storage, x.b.storage ); std::swap( x.a.want, x.b.want ); return true;
    case 'n': if ( x.b.storage <= 0 ) return false; x.a.value.reset( new n::Arc( *x.b.value ) ); x.a.storage = x.b.storage; x.a.want = x.b.want; return true;
    case 'M': if ( x.b.storage <= 0 ) return false; x.a.value.reset( new n::Arc( std::move( *x.b.value ) ) ); x.a.storage = x.b.storage; x.a.want = x.b.want; x.b.storage = -1; return true;
    case 'i': if ( x.a.storage <= 0 ) return false; { auto& same = *x.a.value; *x.a.value = same; } return true;
    case 'd': if ( !x.a.storage ) return false; *x.a.value = n::Arc( ); x.a.storage = 0; x.a.want = "closed"; return true;
    case 'e': if ( !x.b.storage ) return false; x.b.value.reset( new n::Arc ); x.b.storage = 0; x.b.want = "closed"; return true;
    case 'u': if ( x.a.storage <= 0 || x.a.want == "closed" ) return false; *x.c.value = x.a.value->sub( ); x.c.storage = x.a.storage; x.c.want = text( x.a.value->sub( ) ); return true;
    case 'v': if ( x.b.storage <= 0 || x.b.want == "closed" || !x.b.value->osub( ) ) return false; x.c.value.reset( new n::Sub( *x.b.value->osub( ) ) ); x.c.storage = x.b.storage; x.c.want = text( *x.b.value->osub( ) ); return true;
    case 'f': if ( !x.c.storage ) return false; *x.c.value = n::Sub( ); x.c.storage = 0; x.c.want = "closed"; return true;
    case 'r': if ( mode == "mem" ) return false; put( x, x.at == 0 ? 1 : 0 ); return true;
    case 'k': if ( mode == "mem" || x.at < 0 ) return false; put( x, -1 ); return true;
    }
    return false;
}

static int resources_open( )
{
    int n = 0;
    std::ifstream maps( "/proc/self/maps" );
    std::string line;
    while ( std::getline( maps, line ) ) if ( line.find( root ) != std::string::npos ) n++;
    DIR* d = opendir( "/proc/self/fd" );
    char to[ 4096 ];
    while ( auto* e = readdir( d ) )
    {
        ssize_t k = readlinkat( dirfd( d ), e->d_name, to, sizeof to - 1 );
        if ( k > 0 ) { to[ k ] = 0; if ( strstr( to, root.c_str( ) ) ) n++; }
    }
    closedir( d );
    return n;
}

static void look( World& x )
{
    auto check = [ & ]( const char* what, const std::string& got, const std::string& want ) { reads++; if ( got != want && x.error.empty( ) ) x.error = std::string( what ) + " reads\n" + got + "\ninstead of\n" + want; };
    if ( x.a.storage >= 0 ) check( "a", text( *x.a.value ), x.a.want );
    if ( x.b.storage >= 0 ) check( "b", text( *x.b.value ), x.b.want );
    check( "c", text( *x.c.value ), x.c.want );
    if ( x.w_id && x.w_id == x.s_id ) check( "view", show( x.w ), W_TEXT );
    if ( mode != "mem" && !x.s && x.a.storage <= 0 && x.b.storage <= 0 && !x.c.storage )
    {
        // objects that were moved from may hold on to something
        if ( x.a.storage == 0 && x.b.storage == 0 && resources_open( ) && x.error.empty( ) ) x.error = "files are still open or mapped though nothing is open";
    }
}

static void run( const std::string& seq, bool& valid )
{
    snprintf( current, 64, "%s %s", mode.c_str( ), seq.c_str( ) );
    World x;
    x.at = -1;
    if ( mode != "mem" ) { put( x, 0 ); }
    valid = true;
    for ( size_t i = 0; i < seq.size( ) && valid && x.error.empty( ); i++ )
    {
        valid = apply( x, seq[ i ] );
        if ( valid && i + 1 == seq.size( ) ) look( x );
    }
    if ( valid )
    {
        sequences++;
        std::ostringstream st;
        st << bool( x.s ) << x.s_gen << x.s_fresh << x.at << '|' << x.a.storage << x.b.storage << x.c.storage << x.w_id << x.a.want.substr( 0, 24 ) << x.b.want.substr( 0, 24 ) << x.c.want.substr( 0, 24 );
        states.insert( st.str( ) );
        // all orders of ending: storage first, then the copies
        const bool first = sequences % 2;
        if ( first ) x.s.reset( );
        x.a.value.reset( );
        if ( !first && x.b.storage >= 0 && text( *x.b.value ) != x.b.want && x.error.empty( ) ) x.error = "b changed when a ended";
        x.b.value.reset( );
        if ( text( *x.c.value ) != x.c.want && x.error.empty( ) ) x.error = "c changed when the archives ended";
        x.c.value.reset( );
        x.s.reset( );
        if ( mode != "mem" && resources_open( ) && x.error.empty( ) ) x.error = "files are still open or mapped at the end";
        if ( !x.error.empty( ) )
        {
            std::string e = x.error;
            std::replace( e.begin( ), e.end( ), '\n', ';' );
            std::cout << "FAIL|" << mode << ' ' << seq << '|' << e << std::endl;
            valid = false;
        }
    }
    x.s.reset( );
    if ( mode != "mem" ) put( x, -1 );
}

static void explore( const std::string& seq, size_t depth, size_t part, size_t parts, size_t& number )
{
    if ( seq.size( ) == depth ) return;
    for ( char op : std::string( "sWxopcmwnMideuvfrk" ) )
    {
        if ( seq.empty( ) && !strchr( "sWrk", op ) ) continue;
        if ( seq.size( ) == 2 && number++ % parts != part ) continue;
        bool valid;
        run( seq + op, valid );
        if ( valid ) explore( seq + op, depth, part, parts, number );
    }
}

std::string read_wide( const std::string& path );

// "dir PATH" or "tar PATH" per line -> what is read there
static int read_all( )
{
    std::string kind, path;
    while ( std::cin >> kind >> path )
    {
        Storage s;
        if ( kind == "wide" )
        {
            // an archive with many resources, read when its storage was read again and ended
            std::cout << read_wide( path ) << std::endl;
            continue;
        }
        if ( kind == "dir" ) s = flatdata::FileResourceStorage::open( path.c_str( ) ); else s = flatdata::TarArchiveResourceStorage::create( path.c_str( ) );
        std::string t = s ? text( n::Arc::open( s ) ) : "nothing";
        if ( s ) { auto sub = s->directory( "sub" ), no = s->directory( "nowhere" ); t += std::string( "\t" ) + ( sub && sub->exists( "v" ) ? "v" : "-" ) + ( no && no->exists( "v" ) ? "v" : "-" ) + ( s->exists( "nothing" ) ? "n" : "-" ) + ( s->read_schema( "none" ) ? "s" : "-" ); }
        std::replace( t.begin( ), t.end( ), '\n', ';' );
        std::cout << t << std::endl;
    }
    return 0;
}

int main( int argc, char** argv )
{
    mode = argv[ 1 ];
    if ( mode == "read" ) return read_all( );
    const size_t depth = atoi( argv[ 2 ] ), part = atoi( argv[ 3 ] ), parts = atoi( argv[ 4 ] );
    const std::string directory = argv[ 5 ];
    root = directory + "/p" + mode + argv[ 3 ];
    mkdir( root.c_str( ), 0755 );
    live = root + "/live";
    int fd = open( argv[ 6 ], O_RDWR | O_CREAT, 0644 );
    if ( ftruncate( fd, 4096 ) ) return 3;
    current = static_cast< char* >( mmap( nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    close( fd );
    std::clog.setstate( std::ios::failbit );
    for ( int g = 0; g < 2; g++ )
    {
        const std::string base = directory + "/g" + char( '0' + g );
        if ( mode == "tar" ) contents[ g ][ "tar" ] = slurp( base + ".tar" );
        else
        {
            std::vector< std::string > files;
            list( base + "/", "", files );
            for ( auto& f : files ) contents[ g ][ f ] = slurp( base + "/" + f );
        }
        Storage s = flatdata::FileResourceStorage::open( base.c_str( ) );
        texts[ g ] = text( n::Arc::open( s ) );
        if ( texts[ g ] == "closed" ) { std::cout << "FAIL|" << mode << "|the archive " << g << " does not open" << std::endl; return 0; }
    }
    if ( texts[ 0 ] == texts[ 1 ] ) { std::cout << "FAIL|" << mode << "|both archives read the same" << std::endl; return 0; }
    W_TEXT = "[1,0,0,0;2,-1,0,0;3,-2,0,0;]";
    if ( argc > 7 ) { bool valid; run( argv[ 7 ], valid ); }
    else { size_t number = 0; explore( "", depth, part, parts, number ); }
    std::cout << "COUNT " << sequences << ' ' << reads << ' ' << states.size( ) << std::endl;
}
