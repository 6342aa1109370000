/* Preloaded into a process that writes large files: chunks of zeros become holes, so that no memory is used. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <string.h>
#include <sys/uio.h>
#include <unistd.h>

enum { CHUNK = 1 << 16 };
static const char zeros[ CHUNK ];
static ssize_t put( int fd, const void* p, size_t n )
{
    static ssize_t ( *f )( int, const void*, size_t );
    if ( !f ) f = ( ssize_t ( * )( int, const void*, size_t ) )dlsym( RTLD_NEXT, "write" );
    return f( fd, p, n );
}
ssize_t write( int fd, const void* data, size_t n )
{
    const char* p = data;
    size_t done = 0;
    if ( n > 0x7ffff000 ) n = 0x7ffff000; /* as Linux does */
    if ( fd < 3 || n < CHUNK ) return put( fd, p, n );
    while ( done < n )
    {
        const size_t k = n - done < CHUNK ? n - done : CHUNK;
        if ( n - done > k && !memcmp( p + done, zeros, k ) && lseek( fd, k, SEEK_CUR ) >= 0 ) { done += k; continue; }
        const ssize_t w = put( fd, p + done, k );
        if ( w < 0 ) return done ? (ssize_t)done : -1;
        done += w;
        if ( (size_t)w < k ) break;
    }
    return done;
}
ssize_t writev( int fd, const struct iovec* v, int n )
{
    ssize_t total = 0;
    for ( int i = 0; i < n; i++ )
    {
        if ( !v[ i ].iov_len ) continue;
        const ssize_t k = write( fd, v[ i ].iov_base, v[ i ].iov_len );
        if ( k < 0 ) return total ? total : -1;
        total += k;
        if ( (size_t)k < v[ i ].iov_len ) break;
    }
    return total;
}
