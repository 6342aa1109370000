// Writes the resources of lib/fixture.py (content: fixture.CONTENT), and a storage kept in a map with faults.
#pragma once
#include "s.hpp"
#include "arc_map.h"
#include <flatdata/flatdata.h>
#include <stdexcept>
#include <string>
#include <vector>

template < typename T > void put_a( T w, int which )
{
    if ( which == 1 ) { w.a = 1; w.b = -1; w.c = 1; w.d = -5; } else { w.a = 127; w.b = -256; w.c = 0; w.d = ( 1 << 29 ) - 1; }
}
template < typename T > void put_b( T w, int which )
{
    if ( which == 1 ) { w.x = 7; w.y = ~0ull; w.z = -( 1ll << 60 ); } else { w.x = 0; w.y = 1ull << 63; w.z = ( 1ll << 60 ) - 1; }
}

// what a write reported
enum Reported { OK, FAILED, REFUSED };

template < typename F > Reported guarded( F&& f )
{
    try { return f( ) ? OK : FAILED; }
    catch ( const std::runtime_error& ) { return REFUSED; }
}

template < typename SubBuilder > Reported write_sub( SubBuilder& b, const std::string& what, bool second )
{
    return guarded( [ & ] {
        if ( what == "o" ) { return b.set_o( second ? flatdata::MemoryDescriptor( "", size_t( 0 ) ) : flatdata::MemoryDescriptor( "raw", 3 ) ); }
        if ( what == "v" )
        {
            flatdata::Vector< n::A > v;
            if ( !second ) { put_a( v.grow( ), 1 ); put_a( v.grow( ), 2 ); }
            return b.set_v( v );
        }
        auto v = b.start_v( );
        if ( !second ) { put_a( v.grow( ), 1 ); put_a( v.grow( ), 2 ); }
        return bool( v.close( ) );
    } );
}

template < typename Builder > Reported write_resource( Builder& b, const std::string& what, size_t big = 0 )
{
    return guarded( [ & ]( ) -> bool {
        if ( what == "inst" ) { flatdata::Struct< n::A > s; put_a( *s, 1 ); return b.set_inst( *s ); }
        if ( what == "oinst" ) { flatdata::Struct< n::B > s; put_b( *s, 2 ); return b.set_oinst( *s ); }
        if ( what == "vec" ) { flatdata::Vector< n::B > v; put_b( v.grow( ), 1 ); put_b( v.grow( ), 2 ); for ( size_t i = 0; i < big; i++ ) put_b( v.grow( ), 1 ); return b.set_vec( v ); }
        if ( what == "+vec" ) { auto v = b.start_vec( ); put_b( v.grow( ), 1 ); put_b( v.grow( ), 2 ); for ( size_t i = 0; i < big; i++ ) put_b( v.grow( ), 1 ); return bool( v.close( ) ); }
        if ( what == "ovec" ) { flatdata::Vector< n::A > v; put_a( v.grow( ), 2 ); return b.set_ovec( v ); }
        if ( what == "+ovec" ) { auto v = b.start_ovec( ); put_a( v.grow( ), 2 ); return bool( v.close( ) ); }
        if ( what == "mv" )
        {
            auto v = b.start_mv( );
            { auto l = v.grow( ); put_a( l.template add< n::A >( ), 1 ); put_b( l.template add< n::B >( ), 1 ); }
            v.grow( );
            { auto l = v.grow( ); put_b( l.template add< n::B >( ), 2 ); }
            for ( size_t i = 0; i < big; i++ ) { auto l = v.grow( ); put_a( l.template add< n::A >( ), 2 ); }
            return bool( v.close( ) );
        }
        if ( what == "omv" )
        {
            auto v = b.start_omv( );
            { auto l = v.grow( ); put_b( l.template add< n::B >( ), 1 ); }
            v.grow( );
            return bool( v.close( ) );
        }
        if ( what == "raw" ) return b.set_raw( flatdata::MemoryDescriptor( "xyz", 4 ) );
        if ( what == "oraw" ) return b.set_oraw( flatdata::MemoryDescriptor( "", 1 ) );
        throw std::logic_error( what );
    } );
}

// "sub/v", "sub/+v", "sub/o", "osub/..." or a resource of the archive
template < typename Builder > Reported write_any( Builder& b, const std::string& what, size_t big = 0 )
{
    const size_t slash = what.find( '/' );
    if ( slash == std::string::npos ) return write_resource( b, what, big );
    if ( what[ 0 ] == 's' ) return write_sub( b.sub( ), what.substr( slash + 1 ), false );
    return write_sub( b.osub( ), what.substr( slash + 1 ), true );
}

// the files of a resource (without schemas)
inline std::vector< std::string > files_of( std::string what )
{
    const size_t plus = what.find( '+' );
    if ( plus != std::string::npos ) what.erase( plus, 1 );
    if ( what == "mv" || what == "omv" ) return { what, what + "_index" };
    return { what };
}

// which resources an archive exposes
inline std::map< std::string, bool > exposed( const Files& files )
{
    Control c;
    c.files = files;
    n::Arc a = n::Arc::open( std::make_shared< MapStorage >( c ) );
    std::map< std::string, bool > r;
    r[ "inst" ] = bool( a.inst( ) ); r[ "oinst" ] = bool( a.oinst( ) ); r[ "vec" ] = bool( a.vec( ) ); r[ "ovec" ] = bool( a.ovec( ) );
    r[ "mv" ] = bool( a.mv( ) ); r[ "omv" ] = bool( a.omv( ) ); r[ "raw" ] = bool( a.raw( ) ); r[ "oraw" ] = bool( a.oraw( ) );
    r[ "sub" ] = bool( a.sub( ) ); r[ "osub" ] = bool( a.osub( ) );
    r[ "" ] = a.is_open( );
    // the resources of subarchives on their own
    for ( const char* s : { "sub", "osub" } )
    {
        auto d = MapStorage( c ).directory( s );
        n::Sub sub = d ? n::Sub::open( std::move( d ) ) : n::Sub( );
        r[ std::string( s ) + "/v" ] = bool( sub.v( ) ); r[ std::string( s ) + "/o" ] = bool( sub.o( ) );
    }
    return r;
}
