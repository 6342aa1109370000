/* Preloaded into a process that writes an archive: ends it, or makes its calls fail, at a chosen point.
 * Only calls that change files are events: open to write, mkdir, write, lseek on such files, ftruncate, rename, unlink.
 * FAULT_MODE kill: the process ends before event FAULT_AT; bytes: it ends after FAULT_AT bytes written, the last write torn;
 * once: event FAULT_AT fails; lasting: it and all following ones fail; full: after FAULT_AT bytes every write fails, the last one short;
 * short: event FAULT_AT, if a write of more than one byte, writes half of it only (no error). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

static char mode[16];
static long at, events, bytes;
static int armed, fired;
static char mine[4096];

void fault_arm( const char* m, long n ) { strncpy( mode, m, sizeof mode - 1 ); at = n; events = bytes = 0; armed = 1; fired = 0; memset( mine, 0, sizeof mine ); }
long fault_events( void ) { return events; }
long fault_bytes( void ) { return bytes; }
int fault_fired( void ) { return fired; }
__attribute__( ( constructor ) ) static void start( void ) { const char* m = getenv( "FAULT_MODE" ); if ( m && *m ) fault_arm( m, atol( getenv( "FAULT_AT" ) ) ); }

/* an event: 0 go on, else it fails */
static int event( void )
{
    if ( !armed ) return 0;
    const long e = events++;
    if ( !strcmp( mode, "kill" ) && e == at ) _exit( 9 );
    if ( ( !strcmp( mode, "once" ) && e == at ) || ( !strcmp( mode, "lasting" ) && e >= at ) ) { fired = 1; errno = EIO; return 1; }
    return 0;
}
#define REAL( ret, name, ... ) static ret ( *f )( __VA_ARGS__ ); if ( !f ) f = (ret ( * )( __VA_ARGS__ ))dlsym( RTLD_NEXT, name )
static int watched( int fd ) { return armed && fd >= 3 && fd < (int)sizeof mine && mine[ fd ]; }
static ssize_t put( int fd, const void* p, size_t n ) { REAL( ssize_t, "write", int, const void*, size_t ); return f( fd, p, n ); }

ssize_t write( int fd, const void* p, size_t n )
{
    if ( !watched( fd ) || !n ) return put( fd, p, n );
    const long e = events;
    if ( event( ) ) return -1;
    if ( !strcmp( mode, "short" ) && e == at && n > 1 ) { fired = 1; n /= 2; }
    if ( !strcmp( mode, "bytes" ) || !strcmp( mode, "full" ) )
    {
        const size_t left = at - bytes, ok = n < left ? n : left;
        if ( ok < n )
        {
            fired = 1;
            bytes += ok;
            ssize_t done = ok ? put( fd, p, ok ) : 0;
            if ( mode[ 0 ] == 'b' ) _exit( 9 );
            if ( ok ) return done;
            errno = ENOSPC;
            return -1;
        }
    }
    ssize_t done = put( fd, p, n );
    if ( done > 0 ) bytes += done;
    return done;
}
ssize_t writev( int fd, const struct iovec* v, int n )
{
    ssize_t total = 0;
    for ( int i = 0; i < n; i++ )
    {
        if ( !v[ i ].iov_len ) continue;
        const ssize_t k = write( fd, v[ i ].iov_base, v[ i ].iov_len );
        if ( k < 0 ) return total ? total : -1;
        total += k;
        if ( (size_t)k < v[ i ].iov_len ) break;
    }
    return total;
}
static int opened( int fd, int flags ) { if ( fd >= 0 && fd < (int)sizeof mine ) mine[ fd ] = ( flags & O_ACCMODE ) != O_RDONLY; return fd; }
#define MODE int m = 0; if ( flags & O_CREAT ) { va_list a; va_start( a, flags ); m = va_arg( a, int ); va_end( a ); }
#define WRITES ( armed && ( ( flags & O_ACCMODE ) != O_RDONLY ) )
int open( const char* p, int flags, ... ) { MODE REAL( int, "open", const char*, int, ... ); if ( WRITES && event( ) ) return -1; return opened( f( p, flags, m ), flags ); }
int open64( const char* p, int flags, ... ) { MODE REAL( int, "open64", const char*, int, ... ); if ( WRITES && event( ) ) return -1; return opened( f( p, flags, m ), flags ); }
int openat( int d, const char* p, int flags, ... ) { MODE REAL( int, "openat", int, const char*, int, ... ); if ( WRITES && event( ) ) return -1; return opened( f( d, p, flags, m ), flags ); }
int openat64( int d, const char* p, int flags, ... ) { MODE REAL( int, "openat64", int, const char*, int, ... ); if ( WRITES && event( ) ) return -1; return opened( f( d, p, flags, m ), flags ); }
int mkdir( const char* p, mode_t m ) { REAL( int, "mkdir", const char*, mode_t ); if ( event( ) ) return -1; return f( p, m ); }
off_t lseek( int fd, off_t o, int w ) { REAL( off_t, "lseek", int, off_t, int ); if ( watched( fd ) && event( ) ) return -1; return f( fd, o, w ); }
off64_t lseek64( int fd, off64_t o, int w ) { REAL( off64_t, "lseek64", int, off64_t, int ); if ( watched( fd ) && event( ) ) return -1; return f( fd, o, w ); }
int ftruncate( int fd, off_t n ) { REAL( int, "ftruncate", int, off_t ); if ( watched( fd ) && event( ) ) return -1; return f( fd, n ); }
int ftruncate64( int fd, off64_t n ) { REAL( int, "ftruncate64", int, off64_t ); if ( watched( fd ) && event( ) ) return -1; return f( fd, n ); }
int rename( const char* a, const char* b ) { REAL( int, "rename", const char*, const char* ); if ( event( ) ) return -1; return f( a, b ); }
int unlink( const char* a ) { REAL( int, "unlink", const char* ); if ( event( ) ) return -1; return f( a ); }
int close( int fd ) { REAL( int, "close", int ); if ( fd >= 0 && fd < (int)sizeof mine ) mine[ fd ] = 0; return f( fd ); }
