// Opens archives of the fixture schema (lib/fixture.py) under faults and reports everything that is visible.
// usage: arc_server mem|dir|tar BASE_DIR SCRATCH_DIR      stdin: one case per line, stdout: one line per case
// case: operations separated by ';': "path op args", op: D | T n (cut to n) | S i b (substitute) | I i b (insert) |
//       R i (remove byte) | H n (size header) | A n b (append n bytes b) | L n (payload of n bytes of the original, right header)
//       | Z n (payload zero-extended to n bytes, right header)
#include "s.hpp"
#include <flatdata/flatdata.h>
#include <boost/filesystem.hpp>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>

typedef std::map< std::string, std::string > Files;

static std::string slurp( const std::string& p ) { std::ifstream f( p, std::ios::binary ); std::stringstream s; s << f.rdbuf( ); return s.str( ); }
static std::string u64( uint64_t v ) { std::string r( 8, 0 ); for ( int i = 0; i < 8; i++ ) r[ i ] = (char)( v >> 8 * i ); return r; }

static void damage( Files& files, const std::string& ops )
{
    std::stringstream all( ops );
    std::string one;
    while ( std::getline( all, one, ';' ) )
    {
        std::stringstream s( one );
        std::string path; char op; unsigned long long a = 0, b = 0;
        s >> path >> op >> a >> b;
        if ( !files.count( path ) ) continue;
        std::string& d = files[ path ];
        switch ( op )
        {
        case 'D': files.erase( path ); break;
        case 'T': d.resize( std::min< size_t >( a, d.size( ) ) ); break;
        case 'S': if ( a < d.size( ) ) d[ a ] = (char)b; break;
        case 'I': d.insert( std::min< size_t >( a, d.size( ) ), 1, (char)b ); break;
        case 'R': if ( a < d.size( ) ) d.erase( a, 1 ); break;
        case 'H': d.replace( 0, std::min< size_t >( 8, d.size( ) ), u64( a ) ); break;
        case 'A': d.append( a, (char)b ); break;
        case 'L': d = u64( a ) + d.substr( 8, a ) + std::string( 8, 0 ); break;
        case 'Z': { std::string p = d.substr( 8, d.size( ) - 16 ); p.resize( a, 0 ); d = u64( a ) + p + std::string( 8, 0 ); } break;
        }
    }
}

#include "arc_dump.h"

static std::string escape( const std::string& s )
{
    std::string r;
    for ( char c : s ) { if ( c == '\n' ) r += "\\n"; else if ( c == '\\' ) r += "\\\\"; else if ( c == '\t' ) r += "\\t"; else if ( c == 0 ) r += "\\0"; else r += c; }
    return r;
}

static std::string octal( unsigned long long v, int n ) { char b[ 32 ]; snprintf( b, 32, "%0*llo", n, v ); return b; }
static std::string tar( const Files& files )
{
    std::string out;
    for ( const auto& f : files )
    {
        std::string h( 512, 0 );
        h.replace( 0, f.first.size( ), f.first );
        h.replace( 100, 7, "0000644" ); h.replace( 108, 7, "0000000" ); h.replace( 116, 7, "0000000" );
        h.replace( 124, 11, octal( f.second.size( ), 11 ) ); h.replace( 136, 11, octal( 0, 11 ) );
        h[ 156 ] = '0'; h.replace( 257, 5, "ustar" ); h.replace( 263, 2, "00" );
        h.replace( 148, 8, "        " );
        unsigned sum = 0; for ( unsigned char c : h ) sum += c;
        h.replace( 148, 6, octal( sum, 6 ) ); h[ 154 ] = 0; h[ 155 ] = ' ';
        out += h + f.second + std::string( ( 512 - f.second.size( ) % 512 ) % 512, 0 );
    }
    return out + std::string( 1024, 0 );
}

int main( int argc, char** argv )
{
    namespace fs = boost::filesystem;
    (void)argc;
    const std::string mode = argv[ 1 ], base_dir = argv[ 2 ], scratch = argv[ 3 ];
    Files base;
    for ( fs::recursive_directory_iterator it( base_dir ), end; it != end; ++it )
        if ( fs::is_regular_file( it->path( ) ) )
            base[ it->path( ).string( ).substr( base_dir.size( ) + 1 ) ] = slurp( it->path( ).string( ) );
    std::string line;
    std::ostringstream devnull;
    std::clog.rdbuf( devnull.rdbuf( ) );
    while ( std::getline( std::cin, line ) )
    {
        Files files = base;
        damage( files, line );
        std::shared_ptr< flatdata::ResourceStorage > storage;
        if ( mode == "mem" )
        {
            std::shared_ptr< flatdata::MemoryResourceStorage > s( flatdata::MemoryResourceStorage::create( ) );
            for ( const auto& f : files )
            {
                if ( f.first.find( '/' ) != std::string::npos ) s->create_directory( f.first.substr( 0, f.first.find( '/' ) ).c_str( ) );
                s->assign_value( f.first.c_str( ), flatdata::MemoryDescriptor( f.second.data( ), f.second.size( ) ) );
            }
            storage = s;
        }
        else if ( mode == "dir" )
        {
            const std::string d = scratch + "/arc";
            fs::remove_all( d );
            fs::create_directory( d );
            for ( const auto& f : files )
            {
                fs::create_directories( fs::path( d + "/" + f.first ).parent_path( ) );
                std::ofstream( d + "/" + f.first, std::ios::binary ) << f.second;
            }
            storage = flatdata::FileResourceStorage::open( d.c_str( ) );
        }
        else
        {
            const std::string p = scratch + "/arc.tar";
            std::ofstream( p, std::ios::binary ) << tar( files );
            storage = flatdata::TarArchiveResourceStorage::create( p.c_str( ) );
        }
        report( storage );
        std::cout << std::endl;
    }
}
