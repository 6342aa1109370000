// Crashes and failing streams while an archive is written. usage: crash crash|error|null SCENARIO STRIDE
// prints FAIL|case|message, COUNT|n, DISTINCT|n
#include "arc_write.h"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <iostream>
#include <memory>
#include <set>

static int failures = 0;
static long count = 0;
static std::set< std::string > kinds;
static void fail( const std::string& name, const std::string& msg ) { if ( failures++ < 5 ) printf( "FAIL|%s|%s\n", name.c_str( ), msg.c_str( ) ); }

struct Scenario { std::vector< std::string > writes; size_t big; };
static const Scenario SCENARIOS[] = {
    { { "inst", "vec", "mv", "raw", "sub/v", "sub/o", "oinst", "ovec", "omv", "oraw", "osub/v", "osub/o" }, 0 },
    { { "osub/o", "osub/+v", "sub/+v", "sub/o", "oraw", "omv", "+ovec", "oinst", "raw", "mv", "+vec", "inst" }, 0 },
    { { "+vec", "mv", "inst" }, 700 },
    { { "mv", "+ovec", "vec", "raw" }, 45 },
};

struct Run { std::vector< std::pair< std::string, Reported > > reported; bool opened; };

static Run write( Control& c, const Scenario& s )
{
    Run r;
    auto b = n::ArcBuilder::open( std::make_shared< MapStorage >( c ) );
    r.opened = b.is_open( );
    if ( !r.opened ) return r;
    for ( const auto& w : s.writes ) r.reported.emplace_back( w, write_any( b, w, s.big ) );
    return r;
}

static bool complete( const Files& files, const Files& full, const std::string& what )
{
    for ( const auto& f : files_of( what ) )
        for ( const auto& g : { f, f + ".schema" } )
        {
            const auto x = files.find( g ), y = full.find( g );
            if ( x == files.end( ) || y == full.end( ) || x->second != y->second ) return false;
        }
    return true;
}

// nothing incomplete is accepted, everything complete is
static void judge( const std::string& name, const Files& files, const Files& full )
{
    count++;
    auto e = exposed( files );
    std::string kind;
    for ( const auto& x : e )
    {
        kind += x.second ? '1' : '0';
        bool want;
        if ( x.first == "" ) want = complete( files, full, "Arc.archive" ) && e[ "inst" ] && e[ "vec" ] && e[ "mv" ] && e[ "raw" ] && e[ "sub" ];
        else if ( x.first == "sub" || x.first == "osub" ) want = complete( files, full, x.first + "/Sub.archive" ) && complete( files, full, x.first + "/v" );
        else want = complete( files, full, x.first );
        if ( want != x.second ) fail( name, ( x.first.empty( ) ? "the archive" : x.first ) + ( want ? " is complete, but not accepted" : " is accepted, but not completely written" ) );
    }
    kinds.insert( kind );
}

struct Event { std::string file; size_t pos; std::string bytes; };

static void crash( const Scenario& s, const std::string& name, size_t stride )
{
    for ( size_t buffer : { size_t( 0 ), size_t( 16 ), size_t( 8191 ) } )
    {
        Control full;
        std::vector< Event > events;
        full.buffer = buffer;
        full.log = [ & ]( const std::string& f, size_t p, const std::string& b ) { events.push_back( { f, p, b } ); };
        Run r = write( full, s );
        if ( !r.opened ) fail( name, "the builder did not open" );
        for ( const auto& x : r.reported ) if ( x.second != OK ) fail( name, x.first + " reported a failure without a fault" );
        // every prefix of all written bytes, in program order
        Files files;
        size_t n = 0;
        const std::string tag = name + " buffer " + std::to_string( buffer );
        for ( const auto& e : events )
        {
            if ( e.pos == std::string::npos ) { files[ e.file ].clear( ); judge( tag + " after creating " + e.file, files, full.files ); continue; }
            for ( size_t k = 0; k < e.bytes.size( ); k++, n++ )
            {
                std::string& f = files[ e.file ];
                if ( f.size( ) <= e.pos + k ) f.resize( e.pos + k + 1 );
                f[ e.pos + k ] = e.bytes[ k ];
                if ( n % stride == 0 || k < 40 || k + 40 > e.bytes.size( ) || ( e.pos + k ) % 4096 < 2 )
                    judge( tag + " after byte " + std::to_string( n ) + " (" + e.file + " " + std::to_string( e.pos + k ) + ")", files, full.files );
            }
        }
        if ( files != full.files ) fail( tag, "the harness lost a write" );
        if ( buffer ) continue;
        // every file on its own: any prefix of its appended bytes with the first header, any torn header, or the final one
        for ( const auto& ff : full.files )
        {
            std::string first( 8, 0 ), last = ff.second.substr( 0, 8 );
            bool rewritten = false, seen = false;
            for ( const auto& e : events )
                if ( e.file == ff.first && e.pos == 0 && !e.bytes.empty( ) ) { if ( seen ) rewritten = true; else first = e.bytes.substr( 0, 8 ); seen = true; }
            const size_t total = ff.second.size( );
            for ( size_t len = 0; len <= total; len++ )
            {
                if ( len % stride && len > 64 && len + 64 < total ) continue;
                for ( size_t torn = 0; torn <= ( rewritten && first.size( ) == 8 ? 8 : 0 ); torn++ )
                {
                    Files g = full.files;
                    std::string& f = g[ ff.first ];
                    f.resize( len );
                    const std::string header = rewritten ? last.substr( 0, torn ) + first.substr( torn ) : f.substr( 0, 8 );
                    for ( size_t k = 0; k < 8 && k < len; k++ ) if ( k < header.size( ) ) f[ k ] = header[ k ];
                    judge( name + " file " + ff.first + " of length " + std::to_string( len ) + " with " + std::to_string( torn ) + " bytes of the final header", g, full.files );
                }
            }
        }
    }
}

static void judge_error( const std::string& name, const Run& r, const Files& files, const Files& full )
{
    judge( name, files, full );
    for ( const auto& x : r.reported )
    {
        const bool done = complete( files, full, x.first );
        if ( x.second == OK && !done ) fail( name, x.first + " is reported as written, but is not complete" );
        if ( x.second == FAILED && done && x.first.find( '/' ) == std::string::npos ) fail( name, x.first + " is reported as failed, but is complete" );
    }
    if ( !r.opened && complete( files, full, "Arc.archive" ) ) fail( name, "the builder did not open, but the signature is complete" );
    if ( r.opened && !complete( files, full, "Arc.archive" ) ) fail( name, "the builder opened, but the signature is not complete" );
}

static void error( const Scenario& s, const std::string& name, size_t stride )
{
    Control full;
    size_t total = 0;
    std::vector< std::string > streams;
    full.allow = [ & ]( const std::string&, size_t n ) { total += n; return n; };
    full.create = [ & ]( const std::string& f ) { streams.push_back( f ); return true; };
    write( full, s );
    for ( size_t buffer : { size_t( 0 ), size_t( 16 ), size_t( 8191 ) } )
        for ( int sticky = 0; sticky < 3; sticky++ ) // the write fails once; all later writes fail; the write fails once without writing a part
            for ( size_t k = 0; k < total; k++ )
            {
                if ( k % stride ) continue;
                Control c;
                size_t used = 0;
                bool failed = false;
                c.buffer = buffer;
                c.allow = [ & ]( const std::string&, size_t n ) {
                    if ( failed ) return sticky == 1 ? size_t( 0 ) : n;
                    if ( used + n > k ) { failed = true; return sticky == 2 ? 0 : k - used; }
                    used += n;
                    return n;
                };
                Run r = write( c, s );
                static const char* const KIND[] = { "once", "sticky", "once, nothing written" };
                judge_error( name + " buffer " + std::to_string( buffer ) + " error at byte " + std::to_string( k ) + " " + KIND[ sticky ], r, c.files, full.files );
            }
    for ( size_t k = 0; k < streams.size( ); k++ )
        for ( int sticky = 0; sticky < 2; sticky++ )
        {
            Control c;
            size_t i = 0;
            c.broken = [ & ]( const std::string& ) { const size_t n = i++; return sticky ? n >= k : n == k; };
            Run r = write( c, s );
            judge_error( name + " stream " + std::to_string( k ) + " cannot be opened" + ( sticky ? " sticky" : "" ), r, c.files, full.files );
        }
}

// the storage reports an error only when a stream is flushed (as with a write-back cache): this has to be reported
static void unsynced( const Scenario& s, const std::string& name )
{
    Control full;
    std::vector< std::string > flushed;
    full.unsynced = [ & ]( const std::string& f ) { flushed.push_back( f ); return false; };
    write( full, s );
    for ( const auto& f : full.files )
        if ( std::find( flushed.begin( ), flushed.end( ), f.first ) == flushed.end( ) ) fail( name, f.first + " is never flushed: errors cannot be reported" );
    for ( size_t buffer : { size_t( 0 ), size_t( 8191 ) } )
        for ( int sticky = 0; sticky < 2; sticky++ )
            for ( size_t k = 0; k < flushed.size( ); k++ )
            {
                Control c;
                size_t i = 0;
                std::set< std::string > failed;
                c.buffer = buffer;
                c.unsynced = [ & ]( const std::string& f ) {
                    const size_t n = i++;
                    if ( sticky ? n < k : n != k ) return false;
                    failed.insert( f );
                    return true;
                };
                Run r = write( c, s );
                count++;
                const std::string tag = name + " buffer " + std::to_string( buffer ) + " error of flush " + std::to_string( k ) + ( sticky ? " sticky" : "" );
                for ( const auto& x : r.reported )
                    for ( const auto& f : files_of( x.first ) )
                        if ( x.second == OK && ( failed.count( f ) || failed.count( f + ".schema" ) ) ) fail( tag, x.first + " is reported as written, although flushing it failed" );
                if ( r.opened && ( failed.count( "Arc.archive" ) || failed.count( "Arc.archive.schema" ) ) ) fail( tag, "the builder opened, although flushing the signature failed" );
            }
}

// create_output_stream and create_directory may return nullptr
static void null( const Scenario& s, const std::string& name )
{
    Control full;
    size_t streams = 0, directories = 0;
    full.create = [ & ]( const std::string& ) { streams++; return true; };
    full.directory = [ & ]( const std::string& ) { directories++; return true; };
    write( full, s );
    for ( int sticky = 0; sticky < 2; sticky++ )
    {
        for ( size_t k = 0; k < streams; k++ )
        {
            Control c;
            size_t i = 0;
            c.create = [ & ]( const std::string& ) { const size_t n = i++; return sticky ? n < k : n != k; };
            printf( "CASE|%s stream %zu is null%s\n", name.c_str( ), k, sticky ? " sticky" : "" );
            fflush( stdout );
            Run r = write( c, s );
            judge_error( name + " stream " + std::to_string( k ) + " is null" + ( sticky ? " sticky" : "" ), r, c.files, full.files );
        }
        for ( size_t k = 0; k < directories; k++ )
        {
            Control c;
            size_t i = 0;
            c.directory = [ & ]( const std::string& ) { const size_t n = i++; return sticky ? n < k : n != k; };
            printf( "CASE|%s directory %zu is null%s\n", name.c_str( ), k, sticky ? " sticky" : "" );
            fflush( stdout );
            Run r = write( c, s );
            judge_error( name + " directory " + std::to_string( k ) + " is null" + ( sticky ? " sticky" : "" ), r, c.files, full.files );
        }
    }
    printf( "CASE|no storage\n" );
    fflush( stdout );
    count++;
    if ( n::ArcBuilder::open( nullptr ).is_open( ) ) fail( "no storage", "a builder without storage is open" );
    if ( n::Arc::open( nullptr ).is_open( ) ) fail( "no storage", "an archive without storage is open" );
}

int main( int, char** argv )
{
    const std::string mode = argv[ 1 ];
    const int i = atoi( argv[ 2 ] );
    const size_t stride = atoi( argv[ 3 ] );
    const std::string name = mode + " " + argv[ 2 ];
    if ( mode == "crash" ) crash( SCENARIOS[ i ], name, stride );
    if ( mode == "error" ) error( SCENARIOS[ i ], name, stride );
    if ( mode == "unsynced" ) unsynced( SCENARIOS[ i ], name );
    if ( mode == "null" ) null( SCENARIOS[ i ], name );
    printf( "COUNT|%ld\nDISTINCT|%zu\n", count, kinds.size( ) );
    for ( const auto& k : kinds ) printf( "KIND|%s\n", k.c_str( ) );
    return failures != 0;
}
