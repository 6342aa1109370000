// Controlled scheduler: exactly one thread runs between scheduling points (lock operations, file system calls); a depth-first
// search over the choices at these points enumerates all schedules up to a preemption bound.
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
void sched_begin( int threads );            // a new execution; follows the current choice prefix
void sched_enter( int id );                 // first statement of a thread
void sched_leave( void );                   // last statement of a thread
void sched_run( void );                     // in the main thread, after creating all threads: lets them run, returns when all left
int sched_next( void );                     // prepares the next schedule; 0 if all were explored
void sched_reset( int preemption_bound );
void sched_point( void );
void sched_describe( char* out, size_t n ); // the choices of the current schedule
extern void ( *sched_on_deadlock )( void );
extern int sched_races;                     // reports of the race detector
extern long sched_points, sched_states;  // decisions taken; different points of the schedule trees reached
#ifdef __cplusplus
}
#endif
