// Tar reading server. usage: p14 SCRATCH_DIR
// stdin frames: 'T' u32 size, bytes, u32 keys, per key: u32 len, bytes  -> text answer lines, terminated by "."
//               'A' u32 size, bytes, u32 sub-len, sub -> report of the archive opened from the tar ("null" if rejected)
//               'D' u32 len, path -> report of the archive opened from a directory
#include "s.hpp"
#include <flatdata/flatdata.h>
#include <boost/filesystem.hpp>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <unistd.h>
static std::string escape( const std::string& s )
{
    std::string r;
    for ( char c : s ) { if ( c == '\n' ) r += "\\n"; else if ( c == '\\' ) r += "\\\\"; else if ( c == '\t' ) r += "\\t"; else if ( c == 0 ) r += "\\0"; else r += c; }
    return r;
}
#include "arc_dump.h"

static bool get( void* p, size_t n ) { return fread( p, 1, n, stdin ) == n; }
static std::string block( ) { uint32_t n = 0; if ( !get( &n, 4 ) ) _exit( 0 ); std::string s( n, 0 ); if ( n && !get( &s[ 0 ], n ) ) _exit( 0 ); return s; }
static std::string hex( const void* d, size_t n ) { static const char* H = "0123456789abcdef"; std::string r; auto p = (const unsigned char*)d; for ( size_t i = 0; i < n; i++ ) { r += H[ p[ i ] >> 4 ]; r += H[ p[ i ] & 15 ]; } return r; }

int main( int, char** argv )
{
    const std::string path = std::string( argv[ 1 ] ) + "/t.tar";
    std::ostringstream devnull;
    std::clog.rdbuf( devnull.rdbuf( ) );
    char op;
    while ( get( &op, 1 ) )
    {
        alarm( 20 );
        const std::string tar = block( );
        if ( op == 'D' )
        {
            std::shared_ptr< flatdata::ResourceStorage > s = flatdata::FileResourceStorage::open( tar.c_str( ) );
            report( s );
            std::cout << std::endl << "." << std::endl;
            continue;
        }
        {
            FILE* f = fopen( path.c_str( ), "wb" );
            fwrite( tar.data( ), 1, tar.size( ), f );
            fclose( f );
        }
        if ( op == 'A' )
        {
            const std::string sub = block( );
            std::shared_ptr< flatdata::ResourceStorage > s = flatdata::TarArchiveResourceStorage::create( path.c_str( ), sub.c_str( ) );
            if ( s ) report( s ); else std::cout << "null";
            std::cout << std::endl << "." << std::endl;
            continue;
        }
        // the reader itself, on memory of exactly the size of the file
        {
            unsigned char* exact = (unsigned char*)malloc( tar.size( ) ? tar.size( ) : 1 );
            memcpy( exact, tar.data( ), tar.size( ) );
            try
            {
                auto entries = flatdata::internal::read_tar_file_entries( flatdata::MemoryDescriptor( exact, tar.size( ) ) );
                for ( auto& e : entries ) std::cout << "E " << e.offset << ' ' << e.size << ' ' << hex( e.name.data( ), e.name.size( ) ) << '\n';
            }
            catch ( const std::runtime_error& e ) { std::cout << "X\n"; }
            free( exact );
        }
        uint32_t n = 0;
        get( &n, 4 );
        std::unique_ptr< flatdata::TarArchiveResourceStorage > s = flatdata::TarArchiveResourceStorage::create( path.c_str( ) );
        std::unique_ptr< flatdata::MemoryMappedTarFileStorage > m;
        try { m.reset( new flatdata::MemoryMappedTarFileStorage( path.c_str( ) ) ); } catch ( const std::runtime_error& ) { }
        std::cout << ( s ? "S" : "N" ) << ( m ? "M" : "N" ) << '\n';
        for ( uint32_t i = 0; i < n; i++ )
        {
            const std::string key = block( );
            if ( !m || !s ) continue;
            flatdata::MemoryDescriptor d = m->read( key.c_str( ) );
            if ( !d.data( ) ) std::cout << "-"; else std::cout << "=" << hex( d.data( ), d.size_in_bytes( ) );
            // through the storage, relative to every directory of the path
            flatdata::ResourceStorage* at = s.get( );
            std::unique_ptr< flatdata::ResourceStorage > hold;
            size_t begin = 0;
            while ( true )
            {
                std::cout << ( at->exists( key.c_str( ) + begin ) ? '1' : '0' );
                size_t slash = key.find( '/', begin );
                if ( slash == std::string::npos || key[ 0 ] == '/' || key.find( "//" ) != std::string::npos || key.back( ) == '/' ) break;
                auto next = at->directory( key.substr( begin, slash - begin ).c_str( ) );
                if ( !next ) { std::cout << '!'; break; }
                hold = std::move( next );
                at = hold.get( );
                begin = slash + 1;
            }
            std::cout << '\n';
        }
        std::cout << "." << std::endl;
    }
}
