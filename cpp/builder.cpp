// All sequences of builder operations up to a depth from a set of initial archives.
// usage: builder map|mem|dir DEPTH FIRST_OP BASE_DIR SCRATCH
#include "arc_write.h"
#include "alt.hpp"
#include <boost/filesystem.hpp>
#include <cstdio>
#include <fstream>
#include <memory>
#include <set>
#include <sstream>

namespace fs = boost::filesystem;
static int failures = 0;
static long count = 0, sequences = 0;
static std::set< std::string > states;
static std::string mode, scratch;
static Files full; // of a complete archive

static Files read_all( const std::string& d )
{
    Files r;
    for ( fs::recursive_directory_iterator it( d ), end; it != end; ++it )
        if ( fs::is_regular_file( it->path( ) ) )
        {
            std::ifstream f( it->path( ).string( ), std::ios::binary );
            std::stringstream s;
            s << f.rdbuf( );
            r[ it->path( ).string( ).substr( d.size( ) + 1 ) ] = s.str( );
        }
    return r;
}

// the storage under test
struct Place
{
    Control control;
    std::shared_ptr< flatdata::ResourceStorage > storage;
    std::set< std::string > known;

    explicit Place( const Files& files )
    {
        if ( mode == "map" ) { control.files = files; storage = std::make_shared< MapStorage >( control ); }
        else if ( mode == "mem" )
        {
            std::shared_ptr< flatdata::MemoryResourceStorage > s( flatdata::MemoryResourceStorage::create( ) );
            for ( const auto& f : files )
            {
                if ( f.first.find( '/' ) != std::string::npos ) s->create_directory( f.first.substr( 0, f.first.find( '/' ) ).c_str( ) );
                s->assign_value( f.first.c_str( ), flatdata::MemoryDescriptor( f.second.data( ), f.second.size( ) ) );
            }
            storage = s;
        }
        else
        {
            const std::string d = scratch + "/arc";
            fs::remove_all( d );
            fs::create_directory( d );
            for ( const auto& f : files )
            {
                fs::create_directories( fs::path( d + "/" + f.first ).parent_path( ) );
                std::ofstream( d + "/" + f.first, std::ios::binary ) << f.second;
            }
            storage = flatdata::FileResourceStorage::create( d.c_str( ) );
        }
    }
    Files contents( )
    {
        if ( mode == "map" ) return control.files;
        if ( mode == "dir" ) return read_all( scratch + "/arc" );
        Files r;
        auto& s = static_cast< flatdata::MemoryResourceStorage& >( *storage );
        // names are taken from the dump, contents are read
        std::stringstream dump( s.hexdump( true ) );
        std::string line;
        while ( std::getline( dump, line ) )
        {
            const size_t p = line.find( " bytes):" ), q = line.find( " (" );
            if ( p == std::string::npos || q == std::string::npos || line.find( '|' ) != std::string::npos ) continue;
            const std::string name = line.substr( 0, q );
            auto d = s.read_resource( name.c_str( ) );
            r[ name ] = std::string( d.char_ptr( ), d.size_in_bytes( ) );
        }
        return r;
    }
};

static const std::vector< std::string > OPS = { "open", "open other", "inst", "oinst", "vec", "+vec", "ovec", "+ovec", "mv", "omv", "raw", "oraw",
    "sub", "osub", "sub/v", "sub/+v", "sub/o", "osub/v", "osub/+v", "osub/o" };

struct SubModel { bool open = false, created = false; };
struct Model
{
    Files files;
    bool exists_builder = false, created = false, other = false;
    SubModel sub, osub;
};

static void add( Files& files, const std::string& name )
{
    files[ name ] = full.at( name );
    files[ name + ".schema" ] = full.at( name + ".schema" );
}
static bool valid( const Files& files, const std::string& name )
{
    auto d = files.find( name ), s = files.find( name + ".schema" );
    return d != files.end( ) && s != files.end( ) && d->second == full.at( name ) && s->second == full.at( name + ".schema" );
}

// opens the builder of a subarchive if it is not open; returns whether it is open afterwards
static void model_sub( Model& m, SubModel& s, const std::string& name )
{
    if ( s.open ) return;
    const std::string signature = name + "/Sub.archive";
    if ( !m.files.count( signature ) ) { add( m.files, signature ); s.open = s.created = true; }
    else { s.open = valid( m.files, signature ); s.created = false; }
}

// returns what the operation has to report: "open"/"closed" for opening operations, else OK/REFUSED
static std::string model_op( Model& m, const std::string& op )
{
    if ( op == "open" || op == "open other" )
    {
        const bool other = op != "open";
        m.exists_builder = m.created = false;
        m.sub = m.osub = SubModel( );
        m.other = other;
        if ( !m.files.count( "Arc.archive" ) )
        {
            add( m.files, "Arc.archive" );
            if ( other ) m.files[ "Arc.archive.schema" ] = alt::ArcBuilder::schema_definition( );
            m.exists_builder = m.created = true;
        }
        else
        {
            const auto d = m.files.find( "Arc.archive" ), s = m.files.find( "Arc.archive.schema" );
            m.exists_builder = s != m.files.end( ) && d->second == full.at( "Arc.archive" )
                               && s->second == ( other ? std::string( alt::ArcBuilder::schema_definition( ) ) : full.at( "Arc.archive.schema" ) );
        }
        return m.exists_builder ? "open" : "closed";
    }
    const size_t slash = op.find( '/' );
    if ( op == "sub" || op == "osub" )
    {
        SubModel& s = op == "sub" ? m.sub : m.osub;
        model_sub( m, s, op );
        return s.open ? "open" : "closed";
    }
    if ( slash != std::string::npos )
    {
        const std::string name = op.substr( 0, slash );
        SubModel& s = name == "sub" ? m.sub : m.osub;
        model_sub( m, s, name );
        if ( !s.created ) return "refused";
        add( m.files, files_of( op )[ 0 ] );
        return "ok";
    }
    if ( !m.created ) return "refused";
    for ( const auto& f : files_of( op ) ) add( m.files, f );
    return "ok";
}

static const char* text( Reported r ) { return r == OK ? "ok" : r == FAILED ? "failed" : "refused"; }

template < typename Builder > static std::string run_op( Builder& b, const std::string& op )
{
    if ( op == "sub" ) return b.sub( ).is_open( ) ? "open" : "closed";
    if ( op == "osub" ) return b.osub( ).is_open( ) ? "open" : "closed";
    return text( write_any( b, op ) );
}

static void run( const std::string& initial, const Files& files, const std::vector< int >& ops )
{
    sequences++;
    Place place( files );
    Model m;
    m.files = files;
    n::ArcBuilder b;
    alt::ArcBuilder ab;
    std::set< std::string > written;
    std::string name = mode + " " + initial;
    std::string last;
    for ( size_t i = 0; i < ops.size( ); i++ )
    {
        const std::string& op = OPS[ ops[ i ] ];
        name += ";" + op;
        const std::string want = model_op( m, op );
        std::string got;
        if ( op == "open" ) { b = n::ArcBuilder( ); b = n::ArcBuilder::open( place.storage ); got = b.is_open( ) ? "open" : "closed"; if ( bool( b ) != b.is_open( ) ) got = "?"; }
        else if ( op == "open other" ) { ab = alt::ArcBuilder( ); ab = alt::ArcBuilder::open( place.storage ); got = ab.is_open( ) ? "open" : "closed"; }
        else got = m.other ? std::string( "?" ) : run_op( b, op );
        count++;
        const bool final = i + 1 == ops.size( );
        std::string msg;
        if ( got != want ) msg = "the operation reports " + got + ", expected " + want;
        else if ( final )
        {
            const Files now = place.contents( );
            if ( now != m.files )
            {
                for ( const auto& f : now ) if ( !m.files.count( f.first ) ) msg += " unexpected file " + f.first;
                for ( const auto& f : m.files )
                    if ( !now.count( f.first ) ) msg += " missing file " + f.first;
                    else if ( now.at( f.first ) != f.second ) msg += " " + f.first + ( files.count( f.first ) ? " was changed" : " has wrong content" );
            }
            // what was written can be read
            n::Arc a = n::Arc::open( place.storage );
            bool whole = valid( m.files, "Arc.archive" ) && valid( m.files, "sub/Sub.archive" );
            for ( const char* r : { "inst", "vec", "mv", "mv_index", "raw", "sub/v" } ) whole = whole && valid( m.files, r );
            if ( a.is_open( ) != whole ) msg += whole ? " the archive is complete, but does not open" : " the incomplete archive opens";
            std::string state;
            for ( const auto& f : m.files ) state += f.first + ( full.count( f.first ) && full.at( f.first ) == f.second ? "+" : "-" );
            states.insert( state + ( m.exists_builder ? "e" : "" ) + ( m.created ? "c" : "" ) );
        }
        if ( !msg.empty( ) )
        {
            if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) );
            return;
        }
    }
}

// sequences worth running: a builder is opened before it is used, no resource is written twice by sequences of this harness
static void explore( const std::string& initial, const Files& files, std::vector< int >& ops, size_t depth, bool has, bool other )
{
    if ( ops.size( ) == depth ) return;
    for ( int i = 0; i < int( OPS.size( ) ); i++ )
    {
        const std::string& op = OPS[ i ];
        const bool opening = op == "open" || op == "open other";
        if ( !opening && ( !has || other ) ) continue;
        bool twice = false;
        for ( int o : ops ) if ( !opening && files_of( OPS[ o ] ) == files_of( op ) && op != "sub" && op != "osub" ) twice = true;
        // rewriting of a resource through the same builder is not specified
        if ( twice ) continue;
        ops.push_back( i );
        // a builder that did not open can only be asked to write resources of its own
        Model m;
        m.files = files;
        std::string r;
        for ( int o : ops ) r = model_op( m, OPS[ o ] );
        const bool sub_op = op.find( "sub" ) != std::string::npos;
        Model before;
        before.files = files;
        for ( size_t k = 0; k + 1 < ops.size( ); k++ ) model_op( before, OPS[ ops[ k ] ] );
        if ( !( sub_op && !before.exists_builder ) )
        {
            run( initial, files, ops );
            explore( initial, files, ops, depth, has || op == "open", opening ? op == "open other" : other );
        }
        ops.pop_back( );
    }
}

int main( int, char** argv )
{
    mode = argv[ 1 ];
    const size_t depth = atoi( argv[ 2 ] );
    const size_t only = atoi( argv[ 3 ] );
    full = read_all( argv[ 4 ] );
    scratch = argv[ 5 ];
    std::vector< std::pair< std::string, Files > > initial;
    initial.emplace_back( "empty", Files( ) );
    initial.emplace_back( "complete", full );
    auto without = [ & ]( const std::string& name, const std::vector< std::string >& gone ) {
        Files f = full;
        for ( const auto& g : gone ) { f.erase( g ); f.erase( g + ".schema" ); }
        initial.emplace_back( name, f );
        return initial.size( ) - 1;
    };
    without( "no vec", { "vec" } );
    without( "no osub", { "osub/Sub.archive", "osub/v", "osub/o" } );
    without( "no sub", { "sub/Sub.archive", "sub/v", "sub/o" } );
    without( "sub without signature", { "sub/Sub.archive" } );
    without( "no signature", { "Arc.archive" } );
    Files f;
    add( f, "Arc.archive" );
    initial.emplace_back( "signature only", f );
    f = full; f.at( "Arc.archive.schema" ) += " ";
    initial.emplace_back( "other schema", f );
    f = full; f.at( "Arc.archive.schema" ) = alt::ArcBuilder::schema_definition( );
    initial.emplace_back( "schema of other", f );
    f = full; f.erase( "Arc.archive.schema" );
    initial.emplace_back( "no signature schema", f );
    f = full; f.at( "Arc.archive" ).pop_back( );
    initial.emplace_back( "truncated signature", f );
    f = full; f.at( "osub/Sub.archive.schema" ) += " ";
    initial.emplace_back( "other schema of osub", f );
    f = full; f.at( "sub/Sub.archive" )[ 0 ] = 1;
    initial.emplace_back( "broken signature of sub", f );
    f = full; f.at( "vec" ) = ""; f.at( "vec.schema" ) = "";
    initial.emplace_back( "empty vec", f );
    if ( only >= initial.size( ) ) { printf( "COUNT|0\n" ); return 0; }
    std::vector< int > ops;
    explore( initial[ only ].first, initial[ only ].second, ops, depth, false, false );
    printf( "COUNT|%ld\nSEQ|%ld\n", count, sequences );
    for ( const auto& s : states ) printf( "KIND|%zx\n", std::hash< std::string >( )( s ) );
    return failures != 0;
}
