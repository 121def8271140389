/* Thread jobs under the controlled scheduler.  One scenario per line:
 *   prog <seed> <mode> <param> <parallelism> <nqueues> <njobs> main <op>... job <id> <op>... job <id> <op>...
 * ops: q<k>:<j> s<k>:<j> y<n>,<k>:<j> w<n> u<n>,<c> v<n> n<n>,<k>:<j> f<c> F<c> d<k> D<k> a<n> c<n>
 *      i<k> b<j> z M E<j> r<count>,<j> ; k = 0: no queue, 99: the main queue */
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/el.h>
#include <lib-common/unix.h>
#include <sys/wait.h>
#include <signal.h>
#undef fork
#include "vp.h"
#include "sched/vpsched.h"

#define NJ 700
#define NQ 8
#define NS 8
static char *ops[NJ][64];
static int nops[NJ];
static thr_queue_t *queues[NQ];
static thr_syn_t syns[NS];
static bool syn_on[NS], syn_td[NS];
static int syndone[NS];
static int jobsyn[NJ];
static bool posted[NJ], done[NJ];
static int nposted, ndone;
typedef struct { thr_job_t job; int id; } job_t;
static job_t jobs[NJ];
typedef struct { thr_td_t td; int id; } td_t;
static int ntd;

static char buf[4 << 20];
static int blen;
static void ev(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (blen < (int)sizeof(buf) - 300) blen += vsnprintf(buf + blen, sizeof(buf) - blen, fmt, ap);
    va_end(ap);
}
static void dump(void)
{
    int o = 0;
    while (o < blen) { int r = write(fileno(vp_out), buf + o, blen - o); if (r <= 0) _exit(3); o += r; }
}
static void fatal(const char *why)
{
    ev("{\"op\":\"fatal\",\"why\":\"%s\"}\n", why);
    dump();
    _exit(0);
}
static void on_sig(int s) { fatal(s == SIGALRM ? "timeout" : "crash"); }

static void run_ops(int j);
static void job_body(int id)
{
    ev("{\"op\":\"run\",\"j\":%d,\"t\":%d}\n", id, (int)thr_id());
    run_ops(id);
    if (jobsyn[id] >= 0) syndone[jobsyn[id]]++;
    done[id] = true;
    ndone++;
    ev("{\"op\":\"done\",\"j\":%d,\"t\":%d}\n", id, (int)thr_id());
}
static void job_fn(thr_job_t *j, thr_syn_t *syn) { job_body(container_of(j, job_t, job)->id); }
static thr_job_t *mkjob(int id)
{
    if (id & 1) {
        return thr_job_from_blk(^{ job_body(id); });
    }
    jobs[id].id = id;
    jobs[id].job.run = job_fn;
    return &jobs[id].job;
}
static thr_queue_t *qof(int k) { return k == 0 ? NULL : k == 99 ? thr_queue_main_g : queues[k]; }

static void start_post(const char *how, int k, int j, int n)
{
    posted[j] = true;
    nposted++;
    jobsyn[j] = n;
    ev("{\"op\":\"post\",\"how\":\"%s\",\"q\":%d,\"j\":%d,\"s\":%d,\"t\":%d}\n", how, k, j, n, (int)thr_id());
}
static void end_post(int j) { ev("{\"op\":\"posted\",\"j\":%d,\"t\":%d}\n", j, (int)thr_id()); }

static void op(const char *o)
{
    int a, b, c, t = (int)thr_id();
    switch (*o) {
      case 'q':
        sscanf(o + 1, "%d:%d", &a, &b);
        start_post("async", a, b, -1);
        thr_queue(qof(a), mkjob(b));
        end_post(b);
        return;
      case 'r':            /* many unordered jobs with consecutive ids */
        sscanf(o + 1, "%d,%d", &a, &b);
        for (int i = 0; i < a; i++) {
            start_post("async", 0, b + i, -1);
            thr_schedule(mkjob(b + i));
            end_post(b + i);
        }
        return;
      case 's':
        sscanf(o + 1, "%d:%d", &a, &b);
        start_post("sync", a, b, -1);
        if (b & 1) thr_queue_sync_b(qof(a), ^{ job_body(b); });
        else thr_queue_sync(qof(a), mkjob(b));
        end_post(b);
        return;
      case 'y':
        sscanf(o + 1, "%d,%d:%d", &a, &b, &c);
        start_post("async", b, c, a);
        if (b == 0 && (c & 2)) thr_syn_schedule(&syns[a], mkjob(c));
        else thr_syn_queue(&syns[a], qof(b), mkjob(c));
        end_post(c);
        return;
      case 'o':            /* open a syn */
      case 'O':            /* with thread data */
        a = atoi(o + 1);
        thr_syn_init(&syns[a]);
        syn_on[a] = true;
        syndone[a] = 0;
        ev("{\"op\":\"open\",\"s\":%d}\n", a);
        if (*o == 'O') {
            thr_syn_declare_td(&syns[a], ^thr_td_t *(void) {
                td_t *td = p_new(td_t, 1);
                td->id = ++ntd;
                ev("{\"op\":\"newtd\",\"s\":%d,\"td\":%d}\n", a, td->id);
                return &td->td;
            }, ^void (thr_td_t **tdp) {
                td_t *td = container_of(*tdp, td_t, td);
                ev("{\"op\":\"deltd\",\"s\":%d,\"td\":%d}\n", a, td->id);
                p_delete(&td);
                *tdp = NULL;
            });
        }
        return;
      case 'w':
        a = atoi(o + 1);
        ev("{\"op\":\"wait0\",\"s\":%d,\"t\":%d}\n", a, t);
        thr_syn_wait(&syns[a]);
        ev("{\"op\":\"wait1\",\"s\":%d,\"t\":%d}\n", a, t);
        return;
      case 'u':
        sscanf(o + 1, "%d,%d", &a, &b);
        ev("{\"op\":\"until0\",\"s\":%d,\"c\":%d,\"t\":%d}\n", a, b, t);
        thr_syn_wait_until(&syns[a], ^bool (void) { return syndone[a] >= b; });
        ev("{\"op\":\"until1\",\"s\":%d,\"c\":%d,\"t\":%d}\n", a, b, t);
        return;
      case 'v':
        a = atoi(o + 1);
        thr_syn_wipe(&syns[a]);
        syn_on[a] = false;
        ev("{\"op\":\"wipe\",\"s\":%d}\n", a);
        return;
      case 'n':
        sscanf(o + 1, "%d,%d:%d", &a, &b, &c);
        start_post("notify", b, c, -1);
        ev("{\"op\":\"notify\",\"s\":%d,\"j\":%d}\n", a, c);
        thr_syn_notify(&syns[a], qof(b), mkjob(c));
        end_post(c);
        return;
      case 'f':
        a = atoi(o + 1);
        b = ++ntd;           /* identity of this loop */
        ev("{\"op\":\"fe0\",\"f\":%d,\"n\":%d}\n", b, a);
        thr_for_each(a, ^(size_t pos) {
            ev("{\"op\":\"fepos\",\"f\":%d,\"p\":%d}\n", b, (int)pos);
            vp_point();
            ev("{\"op\":\"feposd\",\"f\":%d,\"p\":%d}\n", b, (int)pos);
        });
        ev("{\"op\":\"fe1\",\"f\":%d}\n", b);
        return;
      case 'd':
      case 'D':
        a = atoi(o + 1);
        ev("{\"op\":\"destroy\",\"q\":%d}\n", a);
        thr_queue_destroy(queues[a], *o == 'D');
        queues[a] = NULL;
        if (*o == 'D') ev("{\"op\":\"destroyed\",\"q\":%d}\n", a);
        return;
      case 'a': {          /* take thread data for a while */
        a = atoi(o + 1);
        thr_td_t *td = thr_syn_acquire_td(&syns[a]);
        int id = container_of(td, td_t, td)->id;
        ev("{\"op\":\"acq\",\"s\":%d,\"td\":%d}\n", a, id);
        vp_point();
        vp_relax();
        ev("{\"op\":\"rel\",\"s\":%d,\"td\":%d}\n", a, id);
        thr_syn_release_td(&syns[a], td);
        return;
      }
      case 'c': {          /* collect */
        a = atoi(o + 1);
        char lb[1024], *lp = lb;
        __block int ln = 0;
        lb[0] = '\0';
        thr_syn_collect_td(&syns[a], ^(const thr_td_t *td) {
            if (ln < 900) ln += sprintf(lp + ln, "%s%d", ln ? "," : "", container_of(td, const td_t, td)->id);
        });
        ev("{\"op\":\"collect\",\"s\":%d,\"tds\":[%s]}\n", a, lb);
        return;
      }
      case 'i':
        a = atoi(o + 1);
        b = thr_is_on_queue(qof(a));
        ev("{\"op\":\"ison\",\"q\":%d,\"r\":%s,\"t\":%d}\n", a, b ? "true" : "false", t);
        return;
      case 'b':
        thr_enter_blocking_syscall();
        usleep(atoi(o + 1) * 1000);
        thr_exit_blocking_syscall();
        return;
      case 'z':
        for (int i = 0; i < atoi(o + 1); i++) vp_point();
        return;
      case 'M': {           /* process the main queue until all is done */
        uint64_t limit = vp_vtime_us + 30000000;
        while (ndone < nposted) {
            thr_queue_main_drain();
            if (vp_vtime_us > limit) fatal("stuck: jobs are not run");
            if (ndone < nposted) usleep(20);
        }
        return;
      }
      case 'E': {           /* event loop until this (main queue) job is done */
        a = atoi(o + 1);
        uint64_t limit = vp_vtime_us + 30000000;
        while (!done[a]) {
            el_loop_timeout(100000);
            if (!done[a] && vp_vtime_us > limit) fatal("stuck: the event loop is not woken up");
        }
        return;
      }
    }
    fprintf(stderr, "bad op %s\n", o);
    _exit(3);
}
static void run_ops(int j)
{
    for (int i = 0; i < nops[j]; i++) op(ops[j][i]);
}

int main(int argc, char **argv)
{
    vp_init();
    MODULE_REQUIRE(el);
    while (vp_next()) {
        fflush(vp_out);
        pid_t pid = fork();
        if (pid == 0) {
            for (int s = 0; s < 3; s++) signal((int[]){ SIGSEGV, SIGABRT, SIGBUS }[s], on_sig);
            signal(SIGALRM, on_sig);
            alarm(40);
            if (!vp_is("prog")) vp_bad();
            vp_on_deadlock = fatal;
            vp_max_points = 400000;
            int nq = vp_int(5), cur = -1, k = 7;
            for (; k < vp_argc; k++) {
                if (!strcmp(vp_argv[k], "main")) cur = 0;
                else if (!strcmp(vp_argv[k], "job")) cur = vp_int(++k);
                else ops[cur][nops[cur]++] = vp_argv[k];
            }
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 2);
            ev("{\"op\":\"reset\",\"nj\":%d,\"nq\":%d}\n", (int)vp_int(6), nq);
            setenv("THR_MAX_PARALLELISM", vp_arg(4), 1);
            vp_sched_start(vp_u64(1), vp_int(2), vp_int(3));
            MODULE_REQUIRE(thr);
            for (int q = 1; q <= nq; q++) queues[q] = thr_queue_create();
            memset(jobsyn, -1, sizeof(jobsyn));
            run_ops(0);
            ev("{\"op\":\"end\"}\n");
            MODULE_RELEASE(thr);
            ev("{\"op\":\"stop\"}\n");
            dump();
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        fseek(vp_out, 0, SEEK_END);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
            fprintf(vp_out, "{\"op\":\"fatal\",\"why\":\"child %x\"}\n", st);
        }
    }
    vp_done();
    return 0;
}
