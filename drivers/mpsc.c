/* Lock-free queues under every schedule with few preemptions, and random ones.
 *   sys <preemptions> <max schedules> <kind> <items of producer 1> ...
 *   rnd <seed> <schedules> <kind> <items of producer 1> ...
 * kinds: comb (who finds the queue empty drains it), thr (a consumer thread
 * drains on request), popb popn (a consumer pops, blocking or not), mix (pops
 * and drains), spsc. */
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <sys/wait.h>
#include <signal.h>
#undef fork
#include "vp.h"
#include "sched/vpsched.h"

#define NPROD 4
#define NITEM 24
typedef struct { mpsc_node_t n; int item; } node_t;
static node_t nodes[NITEM + 1];
static int freelist[NITEM], nfree, nfresh;
static mpsc_queue_t Q;
spsc_queue_t(num, uint32_t);
static spsc_t(num) S;
static const char *kind;
static int nprod, items[NPROD + 1], first[NPROD + 1], total, ndelivered;
static int tokens, prod_left;

/* events of the current schedule */
static char buf[1 << 16];
static int blen;
static void ev(const char *fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    if (blen < (int)sizeof(buf) - 200) blen += vsnprintf(buf + blen, sizeof(buf) - blen, fmt, ap);
    va_end(ap);
}
static void fatal(const char *why)
{
    ev("{\"op\":\"fatal\",\"why\":\"%s\"}\n", why);
    fwrite(buf, 1, blen, vp_out);
    fflush(vp_out);
    _exit(0);
}
static void on_sig(int s) { fatal(s == SIGALRM ? "timeout" : "crash"); }

static node_t *get_node(int item)
{
    node_t *n = nfree ? &nodes[freelist[--nfree]] : &nodes[nfresh++];
    n->item = item;
    return n;
}
static void put_node(node_t *n)
{
    ev("{\"op\":\"free\",\"i\":%d}\n", n->item);
    memset((void *)&n->n, 0x51, sizeof(n->n));
    n->item = 0;
    freelist[nfree++] = n - nodes;
}
static void deliver(node_t *n, int t)
{
    ev("{\"op\":\"deliver\",\"i\":%d,\"t\":%d}\n", n->item, t);
    ndelivered++;
}
static void doit(mpsc_node_t *n, data_t d) { node_t *x = container_of(n, node_t, n); deliver(x, d.u32); put_node(x); }
static void freenode(mpsc_node_t *n) { put_node(container_of(n, node_t, n)); }

static void drain(int t)
{
    mpsc_it_t it;
    ev("{\"op\":\"drain\",\"t\":%d}\n", t);
    mpsc_queue_drain_start(&it, &Q);
    do {
        mpsc_node_t *n = mpsc_queue_drain_fast(&it, doit, (data_t){ .u32 = t });
        deliver(container_of(n, node_t, n), t);
    } while (!mpsc_queue_drain_end(&it, freenode));
    ev("{\"op\":\"drained\",\"t\":%d}\n", t);
}

static void *producer(void *arg)
{
    int p = (int)(intptr_t)arg;
    for (int k = 0; k < items[p]; k++) {
        int i = first[p] + k;
        if (!strcmp(kind, "spsc")) {
            ev("{\"op\":\"push\",\"i\":%d}\n", i);
            spsc_push(num, &S, i);
            ev("{\"op\":\"pushed\",\"i\":%d,\"r\":\"none\"}\n", i);
            continue;
        }
        node_t *n = get_node(i);
        ev("{\"op\":\"push\",\"i\":%d}\n", i);
        bool r = mpsc_queue_push(&Q, &n->n);
        ev("{\"op\":\"pushed\",\"i\":%d,\"r\":\"%s\"}\n", i, r ? "empty" : "busy");
        if (r) {
            if (!strcmp(kind, "comb")) drain(p);
            else tokens++;
        }
    }
    prod_left--;
    return NULL;
}
static node_t *pop(bool block)
{
    ev("{\"op\":\"pop0\"}\n");
    mpsc_node_t *m = mpsc_queue_pop(&Q, block);
    node_t *n = m ? container_of(m, node_t, n) : NULL;
    ev("{\"op\":\"pop1\",\"i\":%d}\n", n ? n->item : 0);
    return n;
}
static void *consumer(void *arg)
{
    int idle = 0;
    while (ndelivered < total) {
        bool did = false;
        if (!strcmp(kind, "thr")) {
            if (tokens) { tokens--; drain(9); did = true; }
        } else if (!strcmp(kind, "spsc")) {
            uint32_t v = 0;
            ev("{\"op\":\"pop0\"}\n");
            did = spsc_pop(num, &S, &v);
            ev("{\"op\":\"pop1\",\"i\":%d}\n", did ? v : 0);
            ndelivered += did;
        } else if (!strcmp(kind, "mix")) {
            bool e = mpsc_queue_looks_empty(&Q);
            ev("{\"op\":\"looks\",\"r\":%s}\n", e ? "true" : "false");
            if (!e) {
                did = true;
                if (ndelivered & 1) {
                    drain(9);
                } else {
                    node_t *n = pop(true);
                    if (n) { ndelivered++; put_node(n); }
                }
            }
        } else {
            node_t *n = pop(!strcmp(kind, "popb"));
            if (n) { ndelivered++; put_node(n); did = true; }
        }
        if (!did) {
            if (!prod_left && idle++ > 3) { ev("{\"op\":\"lost\"}\n"); return NULL; }
            vp_relax();
        }
    }
    /* one more look at the (empty) queue */
    if (kind[0] == 'p') pop(true);
    return NULL;
}

static uint64_t *seen;
static size_t nseen, capseen;
static bool is_new(void)
{
    uint64_t h = 1469598103934665603ULL;
    for (int i = 0; i < blen; i++) h = (h ^ (unsigned char)buf[i]) * 1099511628211ULL;
    if (!h) h = 1;
    if (nseen * 2 >= capseen) {
        size_t oc = capseen;
        uint64_t *o = seen;
        capseen = oc ? oc * 2 : 4096;
        seen = calloc(capseen, 8);
        nseen = 0;
        for (size_t i = 0; i < oc; i++) if (o[i]) { size_t k = o[i] & (capseen - 1); while (seen[k]) k = (k + 1) & (capseen - 1); seen[k] = o[i]; nseen++; }
        free(o);
    }
    size_t k = h & (capseen - 1);
    while (seen[k]) { if (seen[k] == h) return false; k = (k + 1) & (capseen - 1); }
    seen[k] = h;
    nseen++;
    return true;
}

static long nruns;
static void run(uint64_t seed, int mode, int param)
{
    bool cons = strcmp(kind, "comb");
    blen = 0;
    ev("{\"op\":\"reset\",\"n\":%d,\"kind\":\"%s\"}\n", total, kind);
    mpsc_queue_init(&Q);
    if (!strcmp(kind, "spsc")) spsc_init(num, &S);
    memset(nodes, 0, sizeof(nodes));
    nfree = nfresh = ndelivered = tokens = 0;
    prod_left = nprod;
    alarm(20);
    vp_sched_start(seed, mode, param);
    for (int p = 1; p <= nprod; p++) vp_spawn(producer, (void *)(intptr_t)p);
    if (cons) vp_spawn(consumer, NULL);
    vp_wait_others();
    vp_sched_stop();
    if (!strcmp(kind, "spsc")) spsc_wipe(num, &S);
    ev("{\"op\":\"end\"}\n");
    nruns++;
    if (is_new()) fwrite(buf, 1, blen, vp_out);
}

static long maxruns;
static void dfs(int depth, int max, uint64_t from)
{
    if (nruns >= maxruns) return;
    vp_plan_n = depth;
    run(1, 2, 0);
    if (depth == max) return;
    uint64_t n = MIN(vp_npoints, VP_MAXREC - 1);
    uint32_t *m = malloc((n + 1) * 4);
    memcpy(m, vp_mask, (n + 1) * 4);
    for (uint64_t p = from; p <= n; p++) {
        for (int t = 1; t < 8; t++) {
            if (!(m[p] >> t & 1)) continue;
            vp_plan[depth] = (struct vp_plan){ p, t };
            dfs(depth + 1, max, p + 1);
        }
    }
    free(m);
}

int main(int argc, char **argv)
{
    vp_init();
    while (vp_next()) {
        fflush(vp_out);
        pid_t pid = fork();
        if (pid == 0) {
            for (int s = 0; s < 3; s++) signal((int[]){ SIGSEGV, SIGABRT, SIGBUS }[s], on_sig);
            signal(SIGALRM, on_sig);
            vp_on_deadlock = fatal;
            vp_max_points = 20000;
            kind = vp_arg(3);
            nprod = vp_argc - 4;
            if (nprod > NPROD) vp_bad();
            total = 0;
            for (int p = 1; p <= nprod; p++) { items[p] = vp_int(3 + p); first[p] = total + 1; total += items[p]; }
            if (vp_is("sys")) {
                maxruns = vp_int(2);
                dfs(0, vp_int(1), 1);
            } else if (vp_is("rnd")) {
                uint64_t seed = vp_u64(1);
                for (int k = 0; k < vp_int(2); k++) {
                    if (k & 1) run(seed * 1000003 + k, 0, 20 + (k % 7) * 100);
                    else run(seed * 1000003 + k, 1, 1 + k % 4);
                }
            } else vp_bad();
            fflush(vp_out);
            fprintf(stderr, "%s %s: %ld schedules, %zu distinct histories\n", vp_argv[0], kind, nruns, nseen);
            _exit(0);
        }
        int st;
        waitpid(pid, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) {
            fseek(vp_out, 0, SEEK_END);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 3) exit(3);
            fprintf(vp_out, "{\"op\":\"fatal\",\"why\":\"child %x\"}\n", st);
        }
        fseek(vp_out, 0, SEEK_END);
    }
    vp_done();
    return 0;
}
