// P39: stands for the generator: "generates" a copy of the schema; what the schema starts with makes it fail.
// Also stands for python3 -m venv and pip3 (by its name), which install it.
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <unistd.h>

static void copy( const char* from, const char* to )
{
    char buffer[ 1 << 16 ];
    FILE* in = fopen( from, "rb" );
    FILE* out = fopen( to, "wb" );
    size_t n;
    if ( !in || !out ) exit( 9 );
    while ( ( n = fread( buffer, 1, sizeof buffer, in ) ) > 0 ) fwrite( buffer, 1, n, out );
    fclose( in );
    if ( fclose( out ) ) exit( 9 );
    chmod( to, 0755 );
}

int main( int argc, char** argv )
{
    const char* slash = strrchr( argv[ 0 ], '/' );
    const char* name = slash ? slash + 1 : argv[ 0 ];
    char line[ 1 << 14 ], self[ 4096 ], path[ 4096 ];
    size_t n = 0;
    n += snprintf( line, sizeof line, "%s", name );
    for ( int i = 1; i < argc; i++ ) n += snprintf( line + n, sizeof line - n, "\t%s", argv[ i ] );
    line[ n++ ] = '\n';
    int fd = open( getenv( "STUB_LOG" ), O_WRONLY | O_APPEND | O_CREAT, 0644 );
    if ( write( fd, line, n ) != (ssize_t)n ) return 9;
    close( fd );
    const char* fail = getenv( "STUB_FAIL" );   // "python3 1", "pip3 nothing"
    size_t len = strlen( name );
    int fails = fail && !strncmp( fail, name, len ) && fail[ len ] == ' ';
    if ( fails && !strcmp( fail + len + 1, "killed" ) ) kill( getpid( ), SIGKILL );
    ssize_t sl = readlink( "/proc/self/exe", self, sizeof self - 1 );
    self[ sl ] = 0;
    if ( !strcmp( name, "python3" ) )
    {
        if ( fails ) return atoi( fail + len + 1 );
        if ( argc < 4 || strcmp( argv[ 1 ], "-m" ) || strcmp( argv[ 2 ], "venv" ) ) return 9;
        mkdir( argv[ argc - 1 ], 0755 );
        snprintf( path, sizeof path, "%s/bin", argv[ argc - 1 ] );
        mkdir( path, 0755 );
        strcat( path, "/pip3" );
        copy( self, path );
        return 0;
    }
    if ( !strcmp( name, "pip3" ) )
    {
        if ( fails ) return atoi( fail + len + 1 );
        strcpy( path, self );
        strcpy( strrchr( path, '/' ), "/flatdata-generator" );
        copy( self, path );
        return 0;
    }
    const char *schema = 0, *out = 0, *language = 0;
    for ( int i = 1; i < argc; i++ )
    {
        const char** what = !strncmp( argv[ i ], "-s", 2 ) || !strncmp( argv[ i ], "--schema", 8 ) ? &schema
            : !strncmp( argv[ i ], "-O", 2 ) || !strncmp( argv[ i ], "--output-file", 13 ) ? &out
            : !strncmp( argv[ i ], "-g", 2 ) || !strncmp( argv[ i ], "--gen", 5 ) ? &language : 0;
        const char* is = strchr( argv[ i ], '=' );
        if ( what && !strncmp( argv[ i ], "--", 2 ) && is ) *what = is + 1;
        else if ( what && i + 1 < argc ) *what = argv[ ++i ];
    }
    if ( !schema || !out || !language || strcmp( language, "rust" ) ) return 8;
    struct stat st;
    if ( stat( schema, &st ) || !S_ISREG( st.st_mode ) ) return 7;
    char content[ 4096 ];
    FILE* f = fopen( schema, "rb" );
    if ( !f ) return 7;
    size_t got = fread( content, 1, sizeof content - 1, f );
    fclose( f );
    content[ got ] = 0;
    if ( !strncmp( content, "EXIT ", 5 ) ) return atoi( content + 5 );
    if ( !strncmp( content, "KILL", 4 ) ) kill( getpid( ), SIGKILL );
    f = fopen( out, "wb" );
    if ( !f ) return 6;
    fprintf( f, "generated from %s", content );
    return fclose( f ) ? 6 : 0;
}
