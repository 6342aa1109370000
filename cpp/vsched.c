// compiled without thread sanitizer: its synchronisation (raw futexes) must stay invisible to the race detector
#define _GNU_SOURCE
#include "vsched.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>

#define MAXT 4
#define MAXL 64
#define MAXC 100000
enum { RUN, LOCK, RDLOCK, DONE };
static __thread int me = -1;
static int nthreads, active;
static volatile int turn;  // thread that may run; nthreads: main
static int state[ MAXT ];
static void* wants[ MAXT ];
static struct { void* lock; int owner; int count; int readers; int readers_of[ MAXT ]; } locks[ MAXL ];
static int nlocks;
static int bound, preemptions;
static int choice[ MAXC ], options[ MAXC ], length, at;
int sched_races;
void __tsan_on_report( void* report ) { (void)report; sched_races++; }
long sched_points, sched_states;
void ( *sched_on_deadlock )( void );

static void futex_wait( int value ) { syscall( SYS_futex, &turn, FUTEX_WAIT_PRIVATE, value, 0, 0, 0 ); }
static void futex_wake( void ) { syscall( SYS_futex, &turn, FUTEX_WAKE_PRIVATE, 100, 0, 0, 0 ); }
static void wait_turn( int id )
{
    int t;
    while ( ( t = __atomic_load_n( &turn, __ATOMIC_SEQ_CST ) ) != id ) futex_wait( t );
}
static void give( int id ) { __atomic_store_n( &turn, id, __ATOMIC_SEQ_CST ); futex_wake( ); }

static int find( void* lock, int add )
{
    for ( int i = 0; i < nlocks; i++ ) if ( locks[ i ].lock == lock ) return i;
    if ( !add ) return -1;
    for ( int i = 0; i < nlocks; i++ ) if ( !locks[ i ].lock ) { memset( &locks[ i ], 0, sizeof locks[ i ] ); locks[ i ].lock = lock; return i; }
    if ( nlocks == MAXL ) abort( );
    memset( &locks[ nlocks ], 0, sizeof locks[ 0 ] );
    locks[ nlocks ].lock = lock;
    return nlocks++;
}
static int recursive( void* lock, int kind ) { return kind == LOCK && ( ( (pthread_mutex_t*)lock )->__data.__kind & 3 ) == PTHREAD_MUTEX_RECURSIVE_NP; }
static int enabled( int id )
{
    if ( state[ id ] == DONE ) return 0;
    if ( state[ id ] == RUN ) return 1;
    int i = find( wants[ id ], 0 );
    if ( i < 0 ) return 1;
    if ( state[ id ] == RDLOCK ) return locks[ i ].count == 0;
    if ( locks[ i ].readers ) return 0;
    if ( locks[ i ].count == 0 ) return 1;
    return locks[ i ].owner == id && recursive( wants[ id ], state[ id ] );
}

static int choose( void )  // the thread to run next
{
    int order[ MAXT ], n = 0;
    const int self = me >= 0 && state[ me ] != DONE && enabled( me );
    if ( self ) order[ n++ ] = me;
    for ( int i = 0; i < nthreads; i++ ) if ( i != me && enabled( i ) ) order[ n++ ] = i;
    if ( n == 0 )
    {
        for ( int i = 0; i < nthreads; i++ ) if ( state[ i ] != DONE ) { if ( sched_on_deadlock ) sched_on_deadlock( ); _exit( 9 ); }
        return nthreads;
    }
    if ( self && preemptions >= bound ) n = 1;
    int pick = 0;
    if ( at < length ) pick = choice[ at ];
    else { if ( length == MAXC ) abort( ); choice[ length ] = 0; options[ length++ ] = n; sched_states++; }
    if ( pick >= n ) { fprintf( stderr, "schedules are not reproducible\n" ); _exit( 10 ); }
    at++;
    sched_points++;
    if ( self && pick > 0 ) preemptions++;
    return order[ pick ];
}

static void yield( void )
{
    const int id = me, next = choose( );
    if ( next == id ) return;
    give( next );
    wait_turn( id );
}

void sched_reset( int b ) { bound = b; length = 0; }
void sched_begin( int threads )
{
    nthreads = threads; active = 1; nlocks = 0; preemptions = 0; at = 0;
    turn = threads;
    for ( int i = 0; i < threads; i++ ) state[ i ] = RUN;
}
void sched_enter( int id ) { me = id; wait_turn( id ); }
void sched_leave( void )
{
    state[ me ] = DONE;
    const int next = choose( );
    me = -1;
    give( next );
}
void sched_run( void ) { me = -1; give( choose( ) ); wait_turn( nthreads ); active = 0; }
int sched_next( void )
{
    while ( length > 0 && choice[ length - 1 ] + 1 >= options[ length - 1 ] ) length--;
    if ( length == 0 ) return 0;
    choice[ length - 1 ]++;
    return 1;
}
void sched_point( void ) { if ( me >= 0 && active ) { state[ me ] = RUN; yield( ); } }
void sched_describe( char* out, size_t n )
{
    size_t p = 0;
    out[ 0 ] = 0;
    for ( int i = 0; i < length && p + 16 < n; i++ ) if ( choice[ i ] ) p += snprintf( out + p, n - p, "%d@%d ", choice[ i ], i );
}

static void acquire( void* lock, int kind )
{
    state[ me ] = kind; wants[ me ] = lock;
    yield( );
    int i = find( lock, 1 );
    if ( kind == RDLOCK ) { locks[ i ].readers++; locks[ i ].readers_of[ me ]++; }
    else { locks[ i ].owner = me; locks[ i ].count++; }
    state[ me ] = RUN;
}
static void release( void* lock )
{
    int i = find( lock, 0 );
    if ( i < 0 ) return;
    if ( locks[ i ].count ) locks[ i ].count--;
    else if ( locks[ i ].readers ) locks[ i ].readers--;
    if ( !locks[ i ].count && !locks[ i ].readers ) locks[ i ].lock = 0;
}

int __real_pthread_mutex_lock( pthread_mutex_t* );
int __real_pthread_mutex_trylock( pthread_mutex_t* );
int __real_pthread_mutex_unlock( pthread_mutex_t* );
int __wrap_pthread_mutex_lock( pthread_mutex_t* m ) { if ( me >= 0 && active ) acquire( m, LOCK ); return __real_pthread_mutex_lock( m ); }
int __wrap_pthread_mutex_trylock( pthread_mutex_t* m )
{
    if ( me >= 0 && active ) sched_point( );
    int r = __real_pthread_mutex_trylock( m );
    if ( r == 0 && me >= 0 && active ) { int i = find( m, 1 ); locks[ i ].owner = me; locks[ i ].count++; }
    return r;
}
int __wrap_pthread_mutex_unlock( pthread_mutex_t* m ) { int r = __real_pthread_mutex_unlock( m ); if ( me >= 0 && active ) release( m ); return r; }
int __real_pthread_rwlock_rdlock( pthread_rwlock_t* );
int __real_pthread_rwlock_wrlock( pthread_rwlock_t* );
int __real_pthread_rwlock_unlock( pthread_rwlock_t* );
int __wrap_pthread_rwlock_rdlock( pthread_rwlock_t* m ) { if ( me >= 0 && active ) acquire( m, RDLOCK ); return __real_pthread_rwlock_rdlock( m ); }
int __wrap_pthread_rwlock_wrlock( pthread_rwlock_t* m ) { if ( me >= 0 && active ) acquire( m, LOCK ); return __real_pthread_rwlock_wrlock( m ); }
int __wrap_pthread_rwlock_unlock( pthread_rwlock_t* m ) { int r = __real_pthread_rwlock_unlock( m ); if ( me >= 0 && active ) release( m ); return r; }

// calls of the file system library
int mkdir( const char* path, mode_t mode ) { sched_point( ); return syscall( SYS_mkdir, path, mode ); }
int __real_open( const char*, int, ... );
int __wrap_open( const char* path, int flags, ... )
{
    va_list ap;
    va_start( ap, flags );
    int mode = va_arg( ap, int );
    va_end( ap );
    sched_point( );
    return __real_open( path, flags, mode );
}
