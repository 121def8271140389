#ifndef VPSCHED_H
#define VPSCHED_H
#include <stdint.h>
/* starts controlling the calling thread and every thread it creates */
void vp_sched_start(uint64_t seed, int mode, int param);
/* stops: the caller keeps running alone, the others stay parked */
void vp_sched_stop(void);
void vp_point(void);
void vp_relax(void);
extern uint64_t vp_vtime_us;      /* virtual time */
extern uint64_t vp_npoints, vp_nswitches;
extern int vp_sched_on;
/* called when no thread can run: must not return */
extern void (*vp_on_deadlock)(const char *why);
extern uint64_t vp_max_points;
/* mode 2: the threads run one after the other except at the points of the plan */
#define VP_MAXREC 20000
struct vp_plan { uint64_t at; int thr; };
extern struct vp_plan vp_plan[8];
extern int vp_plan_n;
extern uint32_t vp_mask[VP_MAXREC];   /* who else could have run at each point */
void vp_wait_others(void);
int vp_me(void);
void vp_spawn(void *(*fn)(void *), void *arg);
#endif
