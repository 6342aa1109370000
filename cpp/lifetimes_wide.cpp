// an archive with many resources, read when its storage was read again and ended
#include <flatdata/flatdata.h>
#include "wide.hpp"
#include <string>

std::string read_wide( const std::string& path )
{
    std::shared_ptr< flatdata::ResourceStorage > s = flatdata::FileResourceStorage::open( path.c_str( ) );
    auto wide = w::Wide::open( s );
    for ( int i = 0; i < 3; i++ ) w::Wide::open( s );
    s.reset( );
    std::string t;
    if ( wide )
    {
#define WIDE( r ) t += std::to_string( uint64_t( wide.r( )[ 0 ].x ) ) + " ";
#include "wide.inc"
    }
    return t;
}
