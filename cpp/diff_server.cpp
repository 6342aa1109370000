// Describes archives whose expected and stored schema differ. stdin: "expected|found" (lines separated by ',', a '$' at the end:
// no newline after the last line), stdout: escaped describe()
#include <flatdata/flatdata.h>
#include <flatdata/internal/ArchiveUtils.h>
#include <iostream>
#include <sstream>

static std::string decode( const std::string& s )
{
    std::string r;
    bool open = false;
    for ( char c : s ) { if ( c == ',' ) r += '\n'; else if ( c == '$' ) open = true; else r += c; }
    if ( open && !r.empty( ) ) r.pop_back( );
    return r;
}
struct Any : flatdata::Archive
{
    std::string m_schema;
    Any( std::shared_ptr< flatdata::ResourceStorage > s, std::string schema ) : flatdata::Archive( s ), m_schema( schema ) { initialize( ); }
    const char* name( ) const override { return "Any"; }
    const char* schema( ) const override { return m_schema.c_str( ); }
    bool load_contents( ) override { return true; }
    void describe_resources( std::ostream& s, size_t n ) const override { describe_resource( n, s, "r", flatdata::MemoryDescriptor( ) ); }
};
int main( )
{
    std::string line;
    while ( std::getline( std::cin, line ) )
    {
        const size_t bar = line.find( '|' );
        const std::string e = decode( line.substr( 0, bar ) ), f = decode( line.substr( bar + 1 ) );
        std::shared_ptr< flatdata::MemoryResourceStorage > s( flatdata::MemoryResourceStorage::create( ) );
        const std::string data( 16, 0 );
        const std::string name = flatdata::internal::signature_name( "Any" );
        s->assign_value( name.c_str( ), flatdata::MemoryDescriptor( data.data( ), data.size( ) ) );
        std::unique_ptr< char[] > exact( new char[ f.size( ) ] ); // not null-terminated
        std::memcpy( exact.get( ), f.data( ), f.size( ) );
        s->assign_value( ( name + ".schema" ).c_str( ), flatdata::MemoryDescriptor( exact.get( ), f.size( ) ) );
        Any a( s, e );
        std::string r = a.describe( );
        for ( size_t i = 0; i < r.size( ); i++ ) std::cout << ( r[ i ] == '\n' ? ',' : r[ i ] );
        std::cout << ( a.is_open( ) ? "open" : "closed" ) << std::endl;
    }
}
