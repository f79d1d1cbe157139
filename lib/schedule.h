/* A deterministic scheduler for real threads: exactly one registered thread
 * runs at a time; every memory access of the instrumented code, every atomic
 * operation and every wrapped call is a point where the schedule (recorded
 * choices) may hand over to another thread.  Link with SCHED_WRAPS. */
#ifndef SCHED_H
#define SCHED_H
#include <stdbool.h>
void sched_begin(unsigned style);   /* the calling thread becomes thread 0 */
void sched_end(void);               /* every other thread must have finished */
void sched_point(void);             /* a possible switch */
void sched_yield_now(void);         /* the thread cannot go on by itself: someone else's turn */
int  sched_self(void);              /* index of the calling thread, -1 if not scheduled */
int  sched_live(void);              /* threads started and not finished, thread 0 excluded */
extern __thread int sched_create_fail;       /* next pthread_create fails with this errno */
extern unsigned long sched_switches, sched_points, sched_creates;
extern unsigned long sched_limit;             /* accesses after which the threads count as not ending */
#define SCHED_STYLES 4
#endif
