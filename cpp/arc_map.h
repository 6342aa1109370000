// A storage kept in a map, with hooks for faults.
#pragma once
#include <flatdata/flatdata.h>
#include <functional>
#include <map>
#include <string>

typedef std::map< std::string, std::string > Files;

// Storage in a map, every access is reported to a controller
struct Control
{
    Files files;
    size_t buffer = 0;                                              // bytes a stream holds back
    std::function< bool( const std::string& ) > create;             // returns false: no stream (nullptr)
    std::function< bool( const std::string& ) > broken;             // returns true: the stream cannot be opened
    std::function< size_t( const std::string&, size_t ) > allow;    // how many of n bytes may be written
    std::function< bool( const std::string& ) > unsynced;           // returns true: a flush reports an error although all was written
    std::function< bool( const std::string& ) > directory;          // returns false: nullptr
    std::function< void( const std::string&, size_t, const std::string& ) > log; // file, position, bytes (position npos: created)
};

class Sink : public std::streambuf
{
public:
    Sink( Control& c, const std::string& name, bool broken ) : m_control( c ), m_name( name ), m_broken( broken )
    {
        if ( m_broken ) return;
        m_control.files[ name ].clear( );
        if ( m_control.log ) m_control.log( name, std::string::npos, "" );
    }
    ~Sink( ) { flush_buffer( ); }
protected:
    int overflow( int c ) override { char x = char( c ); return xsputn( &x, 1 ) == 1 ? c : EOF; }
    std::streamsize xsputn( const char* s, std::streamsize n ) override
    {
        if ( m_broken ) return 0;
        m_held.append( s, n );
        if ( m_held.size( ) > m_control.buffer && !flush_buffer( ) ) return 0;
        return n;
    }
    int sync( ) override { return flush_buffer( ) && !( m_control.unsynced && m_control.unsynced( m_name ) ) ? 0 : -1; }
    pos_type seekpos( pos_type p, std::ios_base::openmode ) override
    {
        if ( !flush_buffer( ) ) return pos_type( off_type( -1 ) );
        m_pos = p;
        return p;
    }
private:
    bool flush_buffer( )
    {
        if ( m_broken ) return false;
        const size_t n = m_held.size( ), ok = m_control.allow ? m_control.allow( m_name, n ) : n;
        std::string& f = m_control.files[ m_name ];
        if ( f.size( ) < m_pos + ok ) f.resize( m_pos + ok );
        f.replace( m_pos, ok, m_held, 0, ok );
        if ( ok && m_control.log ) m_control.log( m_name, m_pos, m_held.substr( 0, ok ) );
        m_pos += ok;
        m_held.clear( );
        return ok == n;
    }
    Control& m_control;
    std::string m_name, m_held;
    size_t m_pos = 0;
    bool m_broken;
};

struct SinkStream : std::ostream
{
    SinkStream( Control& c, const std::string& name, bool broken ) : std::ostream( nullptr ), m_sink( c, name, broken )
    {
        rdbuf( &m_sink );
        if ( broken ) setstate( std::ios::failbit );
    }
    Sink m_sink;
};

class MapStorage : public flatdata::ResourceStorage
{
public:
    MapStorage( Control& c, const std::string& path = "" ) : m_control( c ), m_path( path ) { }
    std::unique_ptr< flatdata::ResourceStorage > create_directory( const char* key ) override
    {
        if ( m_control.directory && !m_control.directory( m_path + key ) ) return nullptr;
        return std::unique_ptr< flatdata::ResourceStorage >( new MapStorage( m_control, m_path + key + "/" ) );
    }
    std::unique_ptr< flatdata::ResourceStorage > directory( const char* key ) override
    {
        const std::string p = m_path + key + "/";
        for ( const auto& f : m_control.files )
            if ( f.first.compare( 0, p.size( ), p ) == 0 ) return std::unique_ptr< flatdata::ResourceStorage >( new MapStorage( m_control, p ) );
        return nullptr;
    }
    bool exists( const char* key ) override { return m_control.files.count( m_path + key ) != 0; }
protected:
    std::shared_ptr< std::ostream > create_output_stream( const char* key ) override
    {
        const std::string name = m_path + key;
        if ( m_control.create && !m_control.create( name ) ) return nullptr;
        return std::make_shared< SinkStream >( m_control, name, m_control.broken && m_control.broken( name ) );
    }
    flatdata::MemoryDescriptor read_resource( const char* key ) override
    {
        const auto f = m_control.files.find( m_path + key );
        return f == m_control.files.end( ) ? flatdata::MemoryDescriptor( ) : flatdata::MemoryDescriptor( f->second.data( ), f->second.size( ) );
    }
private:
    Control& m_control;
    std::string m_path;
};
