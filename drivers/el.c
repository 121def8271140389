/* Event loop driver: the script registers, changes and unregisters events, inside and
 * outside of the callbacks; the clock is virtual. */
#include <lib-common/el.h>
#include <lib-common/core.h>
#include <lib-common/unix.h>
#include <lib-common/net.h>
#include <sys/epoll.h>
#include <sys/wait.h>
#include "vp.h"
#undef fork

/* {{{ virtual time */
static uint64_t vnow;   /* ms */
static bool on;
int __real_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts);
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
    if (!on) return __real_clock_gettime(c, ts);
    uint64_t ms = 2000000000ull + vnow;
    ts->tv_sec = ms / 1000; ts->tv_nsec = ms % 1000 * 1000000;
    return 0;
}
int __real_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout);
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout);
static int npoll;
static bool query;
int __wrap_epoll_wait(int fd, struct epoll_event *ev, int max, int timeout)
{
    if (!on) return __real_epoll_wait(fd, ev, max, timeout);
    int r = __real_epoll_wait(fd, ev, max, 0);
    int d = r == 0 && timeout > 0 ? timeout : 0;
    if (!query) {
        vp_ev("poll"); vp_i("t", timeout); vp_i("d", d); vp_end();
        if (++npoll > 3000) { fprintf(stderr, "the loop does not end\n"); abort(); }
    }
    vnow += d;
    return r;
}
/* }}} */

#define NID 512
typedef struct h_t {
    el_t ev;
    int type;   /* T F W B I S C P K */
    int fires, peer, fd, n, wake;
    bool restarted, rep;
    int64_t delay;
    pid_t pid;
    int killfd;
    bool infire;    /* a child event ends with its callback: it is not unregistered there */
} h_t;
static h_t H[NID];
static bool sig_used[64], chld_hook;

typedef struct act_t { int id, k; char **argv; int argc; struct act_t *next; } act_t;
static act_t *acts, **acts_tail = &acts;
static int depth;

static void cmd(int argc, char **argv);
static void fired(int id)
{
    int k = H[id].fires++;
    depth++;
    for (act_t *a = acts; a; a = a->next)
        if (a->id == id && (a->k == k || a->k == -1)) cmd(a->argc, a->argv);
    depth--;
}
static int ncb; static bool running;
static void ret(int id) {
    if (running && ++ncb == 150) { char *v[] = { (char *)"unloop" }; depth++; cmd(1, v); depth--; }
 vp_ev("ret"); vp_i("id", id); vp_end(); }
static void f1(const char *op, int id) { vp_ev(op); vp_i("id", id); }

static int idof(el_t ev, data_t p, int type)
{
    int id = (int)p.u64;
    if (id <= 0 || id >= NID || H[id].type != type || H[id].ev != ev) {
        fprintf(stderr, "callback for an event that is not registered (%d, type %c)\n", id, type);
        abort();
    }
    return id;
}
static void on_timer(el_t ev, data_t p)
{
    int id = idof(ev, p, 'T');
    f1("ftimer", id); vp_end();
    H[id].restarted = false;
    fired(id);
    if (H[id].ev == ev && !H[id].rep && !H[id].restarted) { H[id].ev = NULL; H[id].type = 0; }
    ret(id);
}
static int on_fd(el_t ev, int fd, short e, data_t p)
{
    int id = idof(ev, p, 'F');
    if (fd != H[id].fd) abort();
    if (e == EL_EVENTS_NOACT) { f1("fact", id); vp_end(); }
    else { f1("ffd", id); vp_i("e", e); vp_end(); }
    fired(id);
    ret(id);
    return 0;
}
static void on_wake(el_t ev, data_t p)
{
    int id = idof(ev, p, 'W');
    f1("ffd", id); vp_i("e", POLLIN); vp_end();
    fired(id); ret(id);
}
static void on_before(el_t ev, data_t p) { int id = idof(ev, p, 'B'); f1("fbefore", id); vp_end(); fired(id); ret(id); }
static void on_idle(el_t ev, data_t p) { int id = idof(ev, p, 'I'); f1("fidle", id); vp_end(); fired(id); ret(id); }
static void on_sig(el_t ev, int s, data_t p) { int id = idof(ev, p, 'S'); f1("fsig", id); vp_i("s", s); vp_end(); fired(id); ret(id); }
static void on_proxy(el_t ev, short e, data_t p) { int id = idof(ev, p, 'P'); f1("fproxy", id); vp_i("e", e); vp_end(); fired(id); ret(id); }
static void on_child(el_t ev, pid_t pid, int st, data_t p)
{
    int id = idof(ev, p, 'C');
    if (pid != H[id].pid) abort();
    f1("fchild", id); vp_i("st", st); vp_end();
    H[id].infire = true;
    fired(id);
    H[id].infire = false;
    if (H[id].ev == ev) { H[id].ev = NULL; H[id].type = 0; }
    ret(id);
}

static void newchild(int id)
{
    int p[2];
    if (pipe(p) < 0) abort();
    fflush(vp_out);
    pid_t pid = fork();
    if (pid == 0) {
        char c;
        close(p[1]);
        for (int i = 3; i < 1000; i++) if (i != p[0]) close(i);
        if (read(p[0], &c, 1) != 1) _exit(99);
        if (c & 0x80) { signal(c & 0x7f, SIG_DFL); raise(c & 0x7f); }
        _exit(c);
    }
    close(p[0]);
    fcntl(p[1], F_SETFD, FD_CLOEXEC);
    H[id].pid = pid; H[id].killfd = p[1];
}
static int die(int id, int how)
{
    char c = how;
    siginfo_t si;
    if (write(H[id].killfd, &c, 1) != 1) abort();
    close(H[id].killfd); H[id].killfd = -1;
    while (waitid(P_PID, H[id].pid, &si, WEXITED | WNOWAIT) < 0) { if (errno != EINTR) abort(); }
    return how & 0x80 ? (how & 0x7f) : (how << 8);
}

static void forget(int id) { if (H[id].peer > 0) close(H[id].peer); H[id].peer = 0; H[id].ev = NULL; H[id].type = 0; }

static int pend_out;    /* children started, not registered yet */
static void cmd(int argc, char **argv)
{
#define A(i) ((i) < argc ? strtoll(argv[i], NULL, 0) : (fprintf(stderr, "arg of %s\n", argv[0]), exit(3), 0LL))
#define IS(s) (!strcmp(argv[0], s))
    int id = argc > 1 ? (int)A(1) : 0;
    if (id < 0 || id >= NID) id = 0;
    h_t *h = &H[id];
    data_t p = { .u64 = id };
    bool fresh = id > 0 && !h->ev && !h->type;
    if (IS("timer")) {
        if (!fresh) return;
        int64_t next = A(2), rep = A(3); int fl = (int)A(4);
        h->type = 'T'; h->rep = rep > 0; h->delay = next; h->restarted = true;
        h->ev = el_timer_register_d(next, rep, (fl & 1 ? EL_TIMER_LOWRES : 0) | (fl & 2 ? EL_TIMER_NOMISS : 0),
                                    on_timer, p);
        f1("timer", id); vp_i("next", next); vp_i("rep", rep); vp_b("low", fl & 1); vp_b("nm", fl & 2); vp_end();
        if (el_timer_is_repeated(h->ev) != h->rep) abort();
    } else if (IS("restart")) {
        int64_t d = A(2);
        if (h->type != 'T' || h->rep) return;
        if (d <= 0 && h->delay == 0) return;
        el_timer_restart(h->ev, d);
        h->restarted = true;
        if (d > 0) h->delay = d;
        f1("restart", id); vp_i("d", d); vp_end();
    } else if (IS("fd")) {
        int sv[2];
        if (!fresh) return;
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv) < 0) abort();
        fd_set_features(sv[0], O_NONBLOCK); fd_set_features(sv[1], O_NONBLOCK);
        h->type = 'F'; h->fd = sv[0]; h->peer = sv[1]; h->n = 0;
        h->ev = el_fd_register_d(sv[0], true, (short)A(2), on_fd, p);
        f1("fd", id); vp_i("want", A(2)); vp_end();
        if (el_fd_get_fd(h->ev) != sv[0] || el_fd_get_mask(h->ev) != A(2)) abort();
    } else if (IS("wake")) {
        if (!fresh) return;
        h->type = 'W'; h->n = 0;
        h->ev = el_wake_register_d(on_wake, p);
        f1("wake", id); vp_end();
    } else if (IS("write")) {
        if (h->type == 'F') {
            if (h->n >= 20 || write(h->peer, "x", 1) != 1) return;
            h->n++;
        } else if (h->type == 'W') { el_wake_fire(h->ev); h->n = 1; }
        else return;
        f1("data", id); vp_i("n", h->n); vp_end();
    } else if (IS("read")) {
        char b[64];
        if (h->type != 'F') return;
        ssize_t r = read(h->fd, b, sizeof(b));
        if (r != (h->n ? h->n : -1)) abort();
        h->n = 0;
        f1("data", id); vp_i("n", 0); vp_end();
    } else if (IS("mask")) {
        if (h->type != 'F') return;
        int old = el_fd_set_mask(h->ev, (short)A(2));
        f1("mask", id); vp_i("want", A(2)); vp_i("old", old); vp_end();
        if (el_fd_get_mask(h->ev) != A(2)) abort();
    } else if (IS("prio")) {
        if (h->type != 'F' || depth) return;
        (el_fd_set_priority)(h->ev, (int)A(2));
        f1("prio", id); vp_i("p", A(2)); vp_end();
    } else if (IS("mark")) {
        if (h->type != 'F') return;
        el_fd_mark_fired(h->ev);
        f1("mark", id); vp_end();
    } else if (IS("watch")) {
        if (h->type != 'F') return;
        int r = el_fd_watch_activity(h->ev, (short)A(2), (int)A(3));
        f1("watch", id); vp_i("mask", A(2)); vp_i("d", A(3)); vp_i("res", r); vp_end();
    } else if (IS("before")) {
        if (!fresh) return;
        h->type = 'B'; h->ev = el_before_register_d(on_before, p); f1("before", id); vp_end();
    } else if (IS("idle")) {
        if (!fresh) return;
        h->type = 'I'; h->ev = el_idle_register_d(on_idle, p); f1("idle", id); vp_end();
    } else if (IS("unpark")) {
        if (h->type != 'I') return;
        el_idle_unpark(h->ev); f1("unpark", id); vp_end();
    } else if (IS("blocker")) {
        if (!fresh) return;
        h->type = 'K'; h->ev = el_blocker_register(); f1("blocker", id); vp_end();
    } else if (IS("signal")) {
        int s = (int)A(2);
        if (!fresh) return;
        h->type = 'S'; sig_used[s] = true;
        h->ev = el_signal_register_d(s, on_sig, p); f1("signal", id); vp_i("s", s); vp_end();
    } else if (IS("raise")) {
        int s = (int)A(1);
        if (!sig_used[s]) return;
        raise(s);
        vp_ev("raise"); vp_i("s", s); vp_end();
    } else if (IS("child")) {
        /* mode 0: alive; else dies with that first */
        int st = 0, how = (int)A(2);
        if (!fresh) return;
        newchild(id);
        if (how) {
            st = die(id, how);
            f1("dies", id); vp_i("st", st); vp_b("sig", chld_hook); vp_end();
        }
        h->type = 'C';
        h->ev = el_child_register_d(h->pid, on_child, p);
        if (!how) chld_hook = true;
        f1("child", id); vp_b("dead", how); vp_i("st", st); vp_end();
        if (el_child_getpid(h->ev) != h->pid || (!how && el_child_get_el(h->pid) != h->ev)) abort();
    } else if (IS("die")) {
        if (h->type != 'C' || h->killfd < 0) return;
        int st = die(id, (int)A(2));
        f1("dies", id); vp_i("st", st); vp_b("sig", true); vp_end();
    } else if (IS("proxy")) {
        if (!fresh) return;
        h->type = 'P'; h->ev = el_proxy_register_d(on_proxy, p); f1("proxy", id); vp_end();
    } else if (IS("pset") || IS("pclr") || IS("pmask")) {
        if (h->type != 'P') return;
        int old = IS("pset") ? el_proxy_set_event(h->ev, (short)A(2)) : IS("pclr") ? el_proxy_clr_event(h->ev, (short)A(2))
                : el_proxy_set_mask(h->ev, (short)A(2));
        f1(argv[0], id); vp_i("m", A(2)); vp_i("old", old); vp_end();
    } else if (IS("unreg")) {
        if (!h->ev || h->infire) return;
        pid_t pid = h->type == 'C' ? h->pid : 0;
        bool alive = pid && h->killfd >= 0;
        char t = h->type;
        int fd = h->fd;
        el_t ev = h->ev;
        data_t r = el_unregister(&ev);
        if (ev || (t != 'K' && r.u64 != (uint64_t)id)) { fprintf(stderr, "unregister: private data lost\n"); abort(); }
        if (t == 'F' && fcntl(fd, F_GETFD) >= 0) { fprintf(stderr, "descriptor not closed\n"); abort(); }
        f1("unreg", id); vp_end();
        forget(id);
        if (alive) {
            int st = die(id, 0x80 | SIGKILL);
            f1("dies", id); vp_i("st", st); vp_b("sig", true); vp_end();
        }
        if (pid) { waitpid(pid, NULL, WNOHANG); }
    } else if (IS("hold")) {
        if (!h->ev) return;
        if (A(2)) el_ref(h->ev); else el_unref(h->ev);
        f1("hold", id); vp_b("h", A(2)); vp_end();
    } else if (IS("unloop")) {
        el_unloop(); vp_ev("unloop"); vp_end();
    } else if (IS("work")) {
        vnow += A(1); vp_ev("work"); vp_i("d", A(1)); vp_end();
    } else if (IS("pending")) {
        if (depth) return;
        query = true;
        bool r = el_has_pending_events();
        query = false;
        vp_ev("pending"); vp_b("r", r); vp_end();
    } else if (IS("loop")) {
        if (depth) return;
        npoll = 0;
        vp_ev("loop"); vp_i("t", A(1)); vp_end();
        el_loop_timeout((int)A(1));
        vp_ev("end"); vp_end();
    } else if (IS("run")) {
        if (depth) return;
        npoll = 0;
        vp_ev("run"); vp_end();
        ncb = 0; running = true;
        el_loop();
        running = false;
        vp_ev("end"); vp_end();
    } else if (IS("on")) {
        act_t *a = calloc(1, sizeof(*a));
        if (depth) return;
        a->id = id; a->k = (int)A(2); a->argc = argc - 3;
        a->argv = calloc(argc - 3, sizeof(char *));
        for (int i = 3; i < argc; i++) a->argv[i - 3] = strdup(argv[i]);
        *acts_tail = a; acts_tail = &a->next;
    } else if (IS("reset")) {
        acts = NULL; acts_tail = &acts;
        for (int i = 1; i < NID; i++) {
            if (H[i].ev) { char b[16], *v[] = { (char *)"unreg", b }; sprintf(b, "%d", i); cmd(2, v); }
            H[i].fires = 0;
        }
        /* two quiet iterations let go of what was collected */
        for (int i = 0; i < 2; i++) { char *v[] = { (char *)"loop", (char *)"0" }; cmd(2, v); }
        vp_ev("reset"); vp_end();
    } else { fprintf(stderr, "unknown op %s\n", argv[0]); exit(3); }
}

int main(void)
{
    vp_init();
    signal(SIGPIPE, SIG_IGN);
    MODULE_REQUIRE(el);
    on = true;
    IGNORE(pend_out);
    while (vp_next()) {
        char *av[64]; int ac = vp_argc;
        for (int i = 0; i < ac && i < 64; i++) av[i] = strdup(vp_argv[i]);
        cmd(ac, av);
    }
    vp_done();
    _exit(0);
}
