/* Paged store: tries, bitmaps, raw memory, snapshots, crashes. */
#include <lib-common/core.h>
#include <lib-common/el.h>
#include <lib-common/thr.h>
#include <lib-common/qps.h>
#include <lib-common/qps-hat.h>
#include <lib-common/qps-bitmap.h>
#include <lib-common/log.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "vp.h"

#define NO 8
#define NE 8
#define NM 64
enum { NONE, HAT, BM, MEM, PGS };
static qps_t *qps;
static struct obj { int kind, vl, nul; qhat_t hat; qps_bitmap_t bm; unsigned w; } obj[NO];
static struct { int o; unsigned w, vw; qhat_enumerator_t h; qps_bitmap_enumerator_t b; } en[NE];
static struct { int o; qhat_path_t p; } path[NE];
static struct { int kind; uint32_t h; size_t sz; int tok; } mem[NM];
static int snapno, lineno, inflight;
/* crash points: the process dies just before its n-th operation on files */
static int armed;
static void die(void);
/* the operation where we die may be one of another thread: nothing is traced
 * by the main one meanwhile (the lock is never released then) */
static pthread_mutex_t arm = PTHREAD_MUTEX_INITIALIZER;
static pid_t self;
static void point(void)
{
    bool l;
    if (armed <= 0) return;
    l = getpid() == self;
    if (l) pthread_mutex_lock(&arm);
    if (armed > 0 && !--armed) die();
    if (l) pthread_mutex_unlock(&arm);
}
static void disarm(void)
{
    pthread_mutex_lock(&arm);
    armed = 0;
    pthread_mutex_unlock(&arm);
}
#define WRAP(ret, f, params, args) ret __real_##f params; ret __wrap_##f params { point(); return __real_##f args; }
WRAP(int, renameat, (int a, const char *b, int c, const char *d), (a, b, c, d))
WRAP(int, linkat, (int a, const char *b, int c, const char *d, int e), (a, b, c, d, e))
WRAP(int, unlinkat, (int a, const char *b, int c), (a, b, c))
WRAP(int, fdatasync, (int a), (a))
WRAP(int, msync, (void *a, size_t b, int c), (a, b, c))
WRAP(int, ftruncate, (int a, off_t b), (a, b))
WRAP(ssize_t, write, (int a, const void *b, size_t c), (a, b, c))


static void key(const char *n, uint32_t k) { vp_i(n, (int32_t)(k ^ 0x80000000u)); }
static void wr(void *p, int vl, int t) { byte *b = p; for (int j = 0; j < vl; j++) b[j] = (byte)(t + j * 37); }
static int rd(const void *p, int vl)
{
    const byte *b = p;
    int t = b ? b[0] : 0;
    if (!b) return 0;
    { int z = 1; for (int j = 0; j < vl; j++) z &= !b[j]; if (z) return 0; }
    for (int j = 0; j < vl; j++) if (b[j] != (byte)(t + j * 37)) return -1;
    return t;
}
static struct obj *O(int i) { int o = (int)vp_int(i); if (o < 0 || o >= NO) vp_bad(); return &obj[o]; }
static void wrm(void *p, size_t n, int t) { byte *b = p; for (size_t j = 0; j < n; j++) b[j] = (byte)(t + (j >> 3) + j); }
static bool okm(const void *p, size_t n, int t) { const byte *b = p; for (size_t j = 0; j < n; j++) if (b[j] != (byte)(t + (j >> 3) + j)) return false; return true; }
static void *mptr(int i, bool w)
{
    if (mem[i].kind == PGS) return qps_pg_deref(qps, mem[i].h);
    return w ? qps_handle_w_deref(qps, mem[i].h) : qps_handle_deref(qps, mem[i].h);
}
static void drop_views(int o)
{
    for (int i = 0; i < NE; i++) { if (en[i].o == o) en[i].o = -1; if (path[i].o == o) path[i].o = -1; }
}
static void meta(sb_t *sb)
{
    sb_addf(sb, "%d", snapno);
    for (int i = 0; i < NO; i++) if (obj[i].kind)
        sb_addf(sb, " o %d %d %d %d %u", i, obj[i].kind, obj[i].vl, obj[i].nul,
                obj[i].kind == HAT ? obj[i].hat.root_cache.handle : obj[i].bm.root_cache.handle);
    for (int i = 0; i < NM; i++) if (mem[i].kind) sb_addf(sb, " m %d %d %u %zu %d", i, mem[i].kind, mem[i].h, mem[i].sz, mem[i].tok);
    sb_addc(sb, '\0');
}
static char *tok(char **s)
{
    char *r;
    while (**s == ' ') (*s)++;
    if (!**s) return NULL;
    r = *s;
    while (**s && **s != ' ') (*s)++;
    if (**s) *(*s)++ = '\0';
    return r;
}
static void opened(sb_t *priv)
{
    char *s = priv->data, *tk;
    int i;
    p_clear(obj, NO); p_clear(mem, NM);
    for (i = 0; i < NE; i++) en[i].o = path[i].o = -1;
    tk = tok(&s);
    snapno = tk ? atoi(tk) : 0;
    vp_i("n", snapno);
    while ((tk = tok(&s))) {
        if (*tk == 'o') {
            uint32_t h;
            i = atoi(tok(&s));
            obj[i].kind = atoi(tok(&s)); obj[i].vl = atoi(tok(&s)); obj[i].nul = atoi(tok(&s));
            h = (uint32_t)atoll(tok(&s));
            if (obj[i].kind == HAT) qhat_init(&obj[i].hat, qps, h); else qps_bitmap_init(&obj[i].bm, qps, h);
        } else {
            i = atoi(tok(&s));
            mem[i].kind = atoi(tok(&s)); mem[i].h = (uint32_t)atoll(tok(&s));
            mem[i].sz = (size_t)atoll(tok(&s)); mem[i].tok = atoi(tok(&s));
        }
    }
}
static int *lines;
static void restart(void)
{
    *lines = lineno;
    vp_done();
    _exit(77);
}
static void die(void)
{
    if (getpid() == self) restart();
    _exit(99);
}
static void do_open(bool crash)
{
    SB_8k(priv);
    qps = qps_open("q", "q", &priv);
    vp_ev("reopen"); vp_b("crash", crash); vp_b("ok", qps != NULL);
    if (qps) { sb_addc(&priv, '\0'); opened(&priv); } else vp_i("n", -1);
    vp_end();
    inflight = 0;
    if (!qps) { vp_done(); exit(0); }
}
/* reads of what the enumerator shows */
static void eshow(int e)
{
    struct obj *o = &obj[en[e].o];
    bool end = o->kind == HAT ? en[e].h.end : en[e].b.end;
    vp_b("end", end);
    key("k", end ? 0 : o->kind == HAT ? en[e].h.key : en[e].b.key.key);
    vp_i("v", !end && o->kind == BM ? en[e].b.value : -2);
}

int main(void)
{
    bool skip = false;
    /* the program runs in a child that is started again when it died of a crash we asked for */
    lines = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    for (;;) {
        int st;
        pid_t pid = ifork();
        if (!pid) break;
        if (pid < 0 || waitpid(pid, &st, 0) != pid) return 3;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { skip = true; continue; }
        if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); kill(getpid(), WTERMSIG(st)); }
        return WEXITSTATUS(st);
    }

    e_set_verbosity(LOG_CRIT);
    logger_set_level(LSTR_EMPTY_V, LOG_ALERT, LOG_RECURSIVE);
    self = getpid();
    vp_init_mode(skip ? "a" : "w");
    for (int i = 0; i < NE; i++) en[i].o = path[i].o = -1;
    MODULE_REQUIRE(thr); MODULE_REQUIRE(qps);
    if (skip) {
        lseek(0, 0, SEEK_SET);
        for (int n = *lines; n > 0 && vp_next(); n--) lineno++;
        do_open(true);
    }
    while (vp_next()) {
        lineno++;
        if (vp_is("reset")) {
            if (qps) qps_close(&qps);
            if (qps_exists("q")) qps_unlink("q");
            if (system("rm -rf q")) exit(3);
            qps = qps_create("q", "q", 0755, "0", 2);
            if (!qps) { fprintf(stderr, "cannot create\n"); exit(3); }
            p_clear(obj, NO); p_clear(mem, NM); snapno = 0; inflight = 0;
            for (int i = 0; i < NE; i++) en[i].o = path[i].o = -1;
            vp_ev("reset"); vp_end();
        } else if (vp_is("new")) {
            /* new o kind vl nul */
            struct obj *o = O(1);
            if (o->kind) continue;
            o->kind = vp_arg(2)[0] == 'h' ? HAT : BM; o->vl = (int)vp_int(3); o->nul = (int)vp_int(4); o->w = 0;
            if (o->kind == HAT) { qhat_init(&o->hat, qps, qhat_create(qps, o->vl, o->nul)); }
            else { o->vl = 1; qps_bitmap_init(&o->bm, qps, qps_bitmap_create(qps, o->nul)); }
            if (o->kind == HAT && vp_argc > 5) qhat_compute_counts(&o->hat, true);
            vp_ev("new"); vp_i("o", vp_int(1)); vp_s("kind", o->kind == HAT ? "hat" : "bm"); vp_b("nul", o->nul); vp_end();
        } else if (vp_is("destroy") || vp_is("clear")) {
            struct obj *o = O(1);
            bool d = vp_is("destroy");
            if (!o->kind) continue;
            if (o->kind == HAT) { if (d) qhat_destroy(&o->hat); else qhat_clear(&o->hat); }
            else { if (d) qps_bitmap_destroy(&o->bm); else qps_bitmap_clear(&o->bm); }
            if (d) { o->kind = NONE; drop_views((int)vp_int(1)); }
            o->w++;
            vp_ev(d ? "destroy" : "clear"); vp_i("o", vp_int(1)); vp_end();
        } else if (vp_is("fill") || vp_is("unfill")) {
            /* fill o k0 step n tok */
            struct obj *o = O(1);
            uint32_t k0 = (uint32_t)vp_u64(2), step = (uint32_t)vp_u64(3);
            int n = (int)vp_int(4), tok = vp_argc > 5 ? (int)vp_int(5) : 0;
            bool f = vp_is("fill"), down = vp_argc > 6;
            if (!o->kind) continue;
            for (int j = 0; j < n; j++) {
                int i = down ? n - 1 - j : j;
                uint32_t k = k0 + (uint32_t)i * step;
                if (o->kind == HAT) {
                    if (f) wr(qhat_set(&o->hat, k), o->vl, (tok + i) % 250 + 1); else qhat_remove(&o->hat, k, NULL);
                } else {
                    if (f) qps_bitmap_set(&o->bm, k); else qps_bitmap_remove(&o->bm, k);
                }
            }
            o->w++;
            vp_ev(f ? "fill" : "unfill"); vp_i("o", vp_int(1)); key("k", k0); vp_i("step", step); vp_i("n", n); vp_i("t", o->kind == BM ? -1 : tok); vp_end();
        } else if (vp_is("set") || vp_is("set0") || vp_is("rem") || vp_is("get")) {
            struct obj *o = O(1);
            uint32_t k = (uint32_t)vp_u64(2);
            byte old[16];
            int v = -2, r = -2;
            bool null = false;
            if (!o->kind) continue;
            memset(old, 0xa5, sizeof(old));
            if (o->kind == HAT) {
                if (vp_is("set")) { v = (int)vp_int(3) % 250 + 1; wr(qhat_set(&o->hat, k), o->vl, v); }
                else if (vp_is("set0")) { bool was = !o->nul || qhat_get(&o->hat, k) != NULL; qhat_set0(&o->hat, k, old); v = was ? rd(old, o->vl) : -3; }
                else if (vp_is("rem")) { r = qhat_remove(&o->hat, k, old); v = rd(old, o->vl); }
                else { const void *p = qhat_get(&o->hat, k); v = rd(p, o->vl); null = o->nul && !p; if (o->nul && qhat_is_null(&o->hat, k) != null) null = !null, v = -5; }
            } else {
                if (vp_is("set")) r = qps_bitmap_set(&o->bm, k);
                else if (vp_is("set0")) r = qps_bitmap_reset(&o->bm, k);
                else if (vp_is("rem")) r = qps_bitmap_remove(&o->bm, k);
                else { v = qps_bitmap_get(&o->bm, k); if (v == QPS_BITMAP_NULL) { null = true; v = 0; } }
            }
            if (!vp_is("get")) o->w++;
            vp_ev(vp_arg(0)); vp_i("o", vp_int(1)); key("k", k); vp_i("v", v); vp_i("r", r); vp_b("null", null); vp_end();
        } else if (vp_is("path")) {
            /* path p o k */
            int p = (int)vp_int(1), oi = (int)vp_int(2);
            if (obj[oi].kind != HAT) continue;
            path[p].o = oi;
            qhat_path_init(&path[p].p, &obj[oi].hat, (uint32_t)vp_u64(3));
        } else if (vp_is("pget") || vp_is("pset") || vp_is("prem")) {
            int p = (int)vp_int(1), v, r = -2;
            byte old[16];
            bool null = false;
            struct obj *o;
            if (path[p].o < 0) continue;
            o = &obj[path[p].o];
            if (vp_is("pget")) { const void *q = qhat_get_path(&path[p].p); v = rd(q, o->vl); null = o->nul && !q; }
            else if (vp_is("pset")) { v = (int)vp_int(2) % 250 + 1; wr(qhat_set_path(&path[p].p), o->vl, v); o->w++; }
            else { uint32_t k = path[p].p.key; r = qhat_remove_path(&path[p].p, old); v = rd(old, o->vl); o->w++; qhat_path_init(&path[p].p, &o->hat, k); }
            vp_ev(vp_is("pget") ? "get" : vp_is("pset") ? "set" : "rem");
            vp_i("o", path[p].o); key("k", path[p].p.key); vp_i("v", v); vp_i("r", r); vp_b("null", null); vp_end();
        } else if (vp_is("en")) {
            /* en e o k */
            int e = (int)vp_int(1), oi = (int)vp_int(2);
            struct obj *o = &obj[oi];
            if (!o->kind) continue;
            en[e].o = oi; en[e].w = en[e].vw = o->w;
            if (o->kind == HAT) en[e].h = qhat_get_enumerator_at(&o->hat, (uint32_t)vp_u64(3));
            else en[e].b = qps_bitmap_get_enumerator_at(&o->bm, (uint32_t)vp_u64(3));
            vp_ev("en"); vp_i("e", e); vp_i("o", oi); key("from", (uint32_t)vp_u64(3)); eshow(e); vp_end();
        } else if (vp_is("next") || vp_is("goto")) {
            int e = (int)vp_int(1);
            struct obj *o;
            bool safe, nx = vp_is("next");
            uint32_t cur, to = 0;
            if (en[e].o < 0) continue;
            o = &obj[en[e].o];
            if (o->kind == HAT ? en[e].h.end : en[e].b.end) continue;
            cur = o->kind == HAT ? en[e].h.key : en[e].b.key.key;
            safe = o->w != en[e].w || vp_int(2);
            if (!nx) { to = (uint32_t)vp_u64(3); if (vp_argc > 4) to = cur + to; if (to < cur) continue; }
            if (o->kind == HAT) { if (nx) qhat_enumerator_next(&en[e].h, safe); else qhat_enumerator_go_to(&en[e].h, to, safe); }
            else { if (nx) qps_bitmap_enumerator_next(&en[e].b, safe); else qps_bitmap_enumerator_go_to(&en[e].b, to, safe); }
            en[e].w = o->w;
            vp_ev(vp_arg(0)); vp_i("e", e); key("to", to); eshow(e); vp_end();
        } else if (vp_is("val")) {
            int e = (int)vp_int(1), v;
            struct obj *o;
            bool safe;
            if (en[e].o < 0 || obj[en[e].o].kind != HAT || en[e].h.end) continue;
            o = &obj[en[e].o];
            safe = o->w != en[e].vw || vp_int(2);
            v = rd(safe ? qhat_enumerator_get_value_safe(&en[e].h) : qhat_enumerator_get_value_unsafe(&en[e].h), o->vl);
            en[e].vw = o->w;
            if (!o->nul) en[e].w = o->w;
            vp_ev("val"); vp_i("e", e); vp_i("v", v); vp_end();
        } else if (vp_is("erem") || vp_is("eset")) {
            /* removal or change of the entry under an enumerator, through its path */
            int e = (int)vp_int(1), v, r = -2;
            struct obj *o;
            byte old[16];
            qhat_path_t p;
            if (en[e].o < 0 || obj[en[e].o].kind != HAT || en[e].h.end) continue;
            o = &obj[en[e].o];
            p = qhat_enumerator_get_path(&en[e].h);
            if (vp_is("erem")) { r = qhat_remove_path(&p, old); v = rd(old, o->vl); }
            else { v = (int)vp_int(2) % 250 + 1; wr(qhat_set_path(&p), o->vl, v); }
            o->w++;
            vp_ev(vp_is("erem") ? "rem" : "set"); vp_i("o", en[e].o); key("k", en[e].h.key); vp_i("v", v); vp_i("r", r); vp_b("null", false); vp_end();
        } else if (vp_is("dump") || vp_is("sweep")) {
            /* all entries; sweep a b: those for which key % a = b are removed when visited */
            struct obj *o = O(1);
            bool sw = vp_is("sweep");
            uint32_t a = sw ? (uint32_t)vp_u64(2) : 1, b = sw ? (uint32_t)vp_u64(3) : 0;
            int cnt = 0, max = 200000;
            if (!o->kind) continue;
            vp_ev(vp_arg(0)); vp_i("o", vp_int(1)); vp_i("a", a); vp_i("b", b);
            vp_arr("l");
            if (o->kind == HAT) {
                if (sw) {
                    qhat_for_each_safe(e, &o->hat) {
                        if (cnt++ > max) break;
                        vp_sep(); fprintf(vp_out, "[%d,%d]", (int32_t)(e.key ^ 0x80000000u), rd(qhat_enumerator_get_value_safe(&e), o->vl));
                        if (e.key % a == b) { qhat_path_t p = qhat_enumerator_get_path(&e); qhat_remove_path(&p, NULL); }
                    }
                } else {
                    qhat_for_each_unsafe(e, &o->hat) {
                        if (cnt++ > max) break;
                        vp_sep(); fprintf(vp_out, "[%d,%d]", (int32_t)(e.key ^ 0x80000000u), rd(qhat_enumerator_get_value_unsafe(&e), o->vl));
                    }
                }
            } else {
                if (sw) {
                    qps_bitmap_for_each_safe(e, &o->bm) {
                        if (cnt++ > max) break;
                        vp_sep(); fprintf(vp_out, "[%d,%d]", (int32_t)(e.key.key ^ 0x80000000u), (int)e.value);
                        if (e.key.key % a == b) qps_bitmap_remove(&o->bm, e.key.key);
                    }
                } else {
                    qps_bitmap_for_each_unsafe(e, &o->bm) {
                        if (cnt++ > max) break;
                        vp_sep(); fprintf(vp_out, "[%d,%d]", (int32_t)(e.key.key ^ 0x80000000u), (int)e.value);
                    }
                }
            }
            vp_arr_end(); vp_end();
            if (sw) o->w++;
        } else if (vp_is("check")) {
            struct obj *o = O(1);
            if (o->kind != HAT) continue;
            vp_ev("check"); vp_i("o", vp_int(1)); vp_i("r", qhat_check_consistency_flags(&o->hat, QHAT_CHECK_DONT_PANIC | QHAT_CHECK_CONTENT, NULL)); vp_end();
        } else if (vp_is("stats")) {
            struct obj *o = O(1);
            if (o->kind == HAT) {
                uint64_t m1 = qhat_compute_memory(&o->hat), v1 = qhat_compute_memory_overhead(&o->hat), m2, v2;
                qhat_compute_counts(&o->hat, false); qhat_compute_counts(&o->hat, true);
                m2 = qhat_compute_memory(&o->hat); v2 = qhat_compute_memory_overhead(&o->hat);
                vp_ev("stats"); vp_i("o", vp_int(1)); vp_i("m1", m1 >> 10); vp_i("m2", m2 >> 10); vp_i("v1", v1 % 1000000007); vp_i("v2", v2 % 1000000007); vp_i("cnt", -1); vp_end();
            } else if (o->kind == BM) {
                size_t m; uint32_t n, s;
                qps_bitmap_compute_stats(&o->bm, &m, &n, &s);
                vp_ev("stats"); vp_i("o", vp_int(1)); vp_i("m1", 0); vp_i("m2", 0); vp_i("v1", 0); vp_i("v2", 0); vp_i("cnt", n); vp_end();
            }
        } else if (vp_is("alloc")) {
            /* alloc i size tok */
            int i = (int)vp_int(1);
            void *p;
            if (mem[i].kind) continue;
            mem[i].kind = MEM; mem[i].sz = (size_t)vp_int(2); mem[i].tok = (int)vp_int(3);
            p = qps_alloc(qps, &mem[i].h, mem[i].sz);
            vp_ev("alloc"); vp_i("i", i); vp_i("t", mem[i].tok); vp_i("sz", mem[i].sz); vp_b("fits", qps_sizeof(qps, p) >= mem[i].sz); vp_i("h", mem[i].h); vp_end();
            wrm(p, mem[i].sz, mem[i].tok);
        } else if (vp_is("pgmap")) {
            int i = (int)vp_int(1);
            if (mem[i].kind) continue;
            mem[i].kind = PGS; mem[i].tok = (int)vp_int(3);
            mem[i].h = qps_pg_map(qps, (size_t)vp_int(2)); mem[i].sz = (size_t)vp_int(2) << 12;
            vp_ev("alloc"); vp_i("i", i); vp_i("t", mem[i].tok); vp_i("sz", mem[i].sz); vp_b("fits", (qps_pg_sizeof(qps, mem[i].h) << 12) >= mem[i].sz); vp_i("h", -(int)(mem[i].h & 0x7fffffff)); vp_end();
            wrm(mptr(i, true), mem[i].sz, mem[i].tok);
        } else if (vp_is("realloc")) {
            int i = (int)vp_int(1), t = (int)vp_int(3);
            size_t old = mem[i].sz, n = (size_t)vp_int(2);
            bool kept;
            if (!mem[i].kind) continue;
            if (mem[i].kind == PGS) { n = MAX(n >> 12, (size_t)1); mem[i].h = qps_pg_remap(qps, mem[i].h, n); n <<= 12; }
            else qps_realloc(qps, mem[i].h, n);
            kept = okm(mptr(i, false), MIN(old, n), mem[i].tok);
            vp_ev("realloc"); vp_i("i", i); vp_i("t", t); vp_i("sz", n); vp_b("kept", kept);
            vp_b("fits", mem[i].kind == PGS ? (qps_pg_sizeof(qps, mem[i].h) << 12) >= n : qps_sizeof(qps, mptr(i, false)) >= n);
            vp_i("h", mem[i].kind == PGS ? -(int)(mem[i].h & 0x7fffffff) : (int)mem[i].h); vp_end();
            mem[i].sz = n; mem[i].tok = t;
            wrm(mptr(i, true), n, t);
        } else if (vp_is("mwrite") || vp_is("mread") || vp_is("mfree")) {
            int i = (int)vp_int(1);
            bool ok;
            if (!mem[i].kind) continue;
            ok = okm(mptr(i, false), mem[i].sz, mem[i].tok);
            if (vp_is("mwrite")) { mem[i].tok = (int)vp_int(2); wrm(mptr(i, true), mem[i].sz, mem[i].tok); }
            vp_ev(vp_arg(0)); vp_i("i", i); vp_i("t", mem[i].tok); vp_i("sz", mem[i].sz); vp_b("ok", ok); vp_end();
            if (vp_is("mfree")) { if (mem[i].kind == PGS) qps_pg_unmap(qps, mem[i].h); else qps_free(qps, mem[i].h); mem[i].kind = NONE; }
        } else if (vp_is("leaks")) {
            qps_roots_t roots;
            qps_roots_init(&roots);
            for (int i = 0; i < NO; i++) {
                if (obj[i].kind == HAT) qhat_get_qps_roots(&obj[i].hat, &roots);
                if (obj[i].kind == BM) qps_bitmap_get_qps_roots(&obj[i].bm, &roots);
            }
            for (int i = 0; i < NM; i++) {
                if (mem[i].kind == MEM) qv_append(&roots.handles, mem[i].h);
                if (mem[i].kind == PGS) qv_append(&roots.pages, mem[i].h);
            }
            vp_ev("leaks"); vp_i("r", qps_check_leaks(qps, &roots)); vp_end();
            qps_roots_wipe(&roots);
        } else if (vp_is("snap")) {
            SB_8k(sb);
            if (qps->snapshotting) continue;
            snapno++; inflight = snapno;
            meta(&sb);
            vp_ev("snap"); vp_i("n", snapno); vp_end();
            qps_snapshot(qps, sb.data, sb.len, ^(uint32_t gen) { });
        } else if (vp_is("wait")) {
            if (!qps->snapshotting) continue;
            qps_snapshot_wait(qps);
            vp_ev("snapped"); vp_i("n", inflight); vp_end();
            inflight = 0;
        } else if (vp_is("gc")) {
            if (qps->snapshotting) continue;
            qps_gc_run(qps);
            for (int i = 0; i < NO; i++) obj[i].w++;
            for (int i = 0; i < NE; i++) en[i].o = path[i].o = -1;
            vp_ev("gc"); vp_i("r", __qps_check_maps(qps, false)); vp_end();
        } else if (vp_is("reopen")) {
            if (qps->snapshotting) { qps_snapshot_wait(qps); vp_ev("snapped"); vp_i("n", inflight); vp_end(); }
            qps_close(&qps);
            do_open(false);
        } else if (vp_is("crash")) {
            /* the machine or the process stops here */
            if (qps->snapshotting) {
                int st;
                if (vp_int(1)) kill(qps->snap_pid, SIGKILL);
                waitpid(qps->snap_pid, &st, 0);
            }
            restart();
        } else if (vp_is("snapcrash")) {
            /* the process that writes the snapshot dies at its n-th operation, and we with it */
            SB_8k(sb);
            int st;
            if (qps->snapshotting) continue;
            snapno++; inflight = snapno;
            meta(&sb);
            vp_ev("snap"); vp_i("n", snapno); vp_end();
            fflush(vp_out);
            armed = (int)vp_int(1);
            qps_snapshot(qps, sb.data, sb.len, ^(uint32_t gen) { });
            disarm();
            waitpid(qps->snap_pid, &st, 0);
            restart();
        } else if (vp_is("endcrash")) {
            /* we die at our n-th operation after the snapshot is written */
            if (!qps->snapshotting) continue;
            fflush(vp_out);
            armed = (int)vp_int(1);
            qps_snapshot_wait(qps);
            disarm();
            vp_ev("snapped"); vp_i("n", inflight); vp_end();
            inflight = 0;
            restart();
        } else vp_bad();
        fflush(vp_out);
    }
    if (qps) qps_close(&qps);
    vp_done();
    MODULE_RELEASE(qps); MODULE_RELEASE(thr);
    return 0;
}
