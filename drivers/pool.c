/* Memory pools: stack, ring, fifo, libc.
 *  pool P KIND SIZE | alloc P ID N AL ZERO F | realloc ID N ZERO F | write ID F
 *  read ID | free ID | push P F | pop P | trim P | attop P | newframe P F
 *  seal P | release F | ckpt P K | rewind K | delete P | stats P
 *  footprint P | leaks
 */
#include <lib-common/core.h>
#include "vp.h"

static long g_blocks;
/* the blocks obtained from the system, and what was asked for */
#define MAXB 65536
static struct { uintptr_t a; size_t n; } g_blk[MAXB];
static int g_nblk;
static void *got(void *p, size_t n)
{
    if (p) {
        g_blocks++;
        if (g_nblk < MAXB) { g_blk[g_nblk].a = (uintptr_t)p; g_blk[g_nblk++].n = n; }
    }
    return p;
}
static void gone(void *p)
{
    if (!p) return;
    g_blocks--;
    for (int i = g_nblk - 1; i >= 0; i--)
        if (g_blk[i].a == (uintptr_t)p) { g_blk[i] = g_blk[--g_nblk]; return; }
}
#define W(ret, name, params, args, n) \
    ret __real_##name params; ret __wrap_##name params; \
    ret __wrap_##name params { return got(__real_##name args, n); }
W(void *, malloc, (size_t n), (n), n)
W(void *, calloc, (size_t a, size_t b), (a, b), a * b)
W(void *, memalign, (size_t a, size_t b), (a, b), b)
W(void *, aligned_alloc, (size_t a, size_t b), (a, b), b)
int __real_posix_memalign(void **p, size_t a, size_t n);
int __wrap_posix_memalign(void **p, size_t a, size_t n);
int __wrap_posix_memalign(void **p, size_t a, size_t n)
{ int r = __real_posix_memalign(p, a, n); if (!r) got(*p, n); return r; }
void *__real_realloc(void *p, size_t n); void *__wrap_realloc(void *p, size_t n);
void *__wrap_realloc(void *p, size_t n)
{ void *r = __real_realloc(p, n); if (r) { gone(p); got(r, n); } return r; }
void __real_free(void *p); void __wrap_free(void *p);
void __wrap_free(void *p) { gone(p); __real_free(p); }

enum { STACK, RING, FIFO, LIBC, CL };
#define MAXP 16
#define MAXF 4096
#define MAXA 8192
static struct { int kind; mem_pool_t *mp; const void *frames[MAXF]; int nf; } pools[MAXP];
static const void *ringframes[MAXF];
static const void *ckpts[MAXF];
static struct { int p; byte *ptr; size_t n, al; } allocs[MAXA];

static void runs(const char *k, const byte *p, size_t n)
{
    vp_arr(k);
    for (size_t i = 0; i < n; ) {
        size_t j = i;
        while (j < n && p[j] == p[i]) j++;
        vp_sep();
        fprintf(vp_out, "[%d,%zu]", p[i], j - i);
        vp_first = false;
        i = j;
    }
    vp_arr_end();
}
static void addr(const void *p)
{
    vp_i("h", (uintptr_t)p >> 24);
    vp_i("l", (uintptr_t)p & 0xffffff);
    /* the block of the system it starts in: offset and size */
    long off = -1, n = 0;
    for (int i = 0; i < g_nblk; i++)
        if ((uintptr_t)p >= g_blk[i].a && (uintptr_t)p - g_blk[i].a < g_blk[i].n) { off = (uintptr_t)p - g_blk[i].a; n = g_blk[i].n; }
    vp_i("off", off); vp_i("bn", n);
}

int main(void)
{
    long start = 0;

    {
        /* the first messages logged initialise the logger for good */
        mem_pool_t *fp = mem_fifo_pool_new("w", 0), *rp = mem_ring_new("w", 0);
        void *q = mp_imalloc(fp, 8, 8, 0); const void *f = mem_ring_newframe(rp);
        mem_pool_t *keep = fp;
        mem_fifo_pool_delete(&fp); mem_ring_delete(&rp);
        mp_ifree(keep, q); mem_ring_release(f);
    }
    vp_init();
    while (vp_next()) {
        const char *o = vp_arg(0);
        int p = vp_argc > 1 ? vp_int(1) : 0;

        if (!strcmp(o, "pool")) {
            static const char *kn[] = { "stack", "ring", "fifo", "libc", "cl" };
            const char *k = vp_arg(2); int sz = vp_int(3);
            for (int i = 0; i < 5; i++) if (!strcmp(k, kn[i])) pools[p].kind = i;
            bool any = false;
            for (int i = 0; i < MAXP; i++) if (i != p && pools[i].mp) any = true;
            if (!any) start = g_blocks;
            pools[p].nf = 0;
            switch (pools[p].kind) {
              case STACK: pools[p].mp = mem_stack_new("vp", sz); break;
              case RING: pools[p].mp = mem_ring_new("vp", sz); break;
              case FIFO: pools[p].mp = mem_fifo_pool_new("vp", sz); break;
              case LIBC: pools[p].mp = &mem_pool_libc; break;
              case CL: pools[p].mp = &mem_pool_cl_aligned; break;
            }
            vp_ev("pool"); vp_i("p", p); vp_s("k", pools[p].kind >= LIBC ? "libc" : k); vp_end();
        } else if (!strcmp(o, "alloc")) {
            int id = vp_int(2); size_t n = vp_int(3), al = vp_int(4); bool z = vp_int(5); int f = vp_int(6);
            byte *q = mp_imalloc(pools[p].mp, n, al, z ? 0 : MEM_RAW);
            allocs[id].p = p; allocs[id].ptr = q; allocs[id].n = n; allocs[id].al = al;
            vp_ev("alloc"); vp_i("p", p); vp_i("id", id); vp_i("n", n); vp_i("al", al); vp_b("zero", z); vp_i("f", f);
            runs("c", q, z ? n : 0); addr(q); vp_end();
            if (!z) memset(q, f, n);
        } else if (!strcmp(o, "realloc")) {
            int id = vp_int(1); size_t n = vp_int(2); bool z = vp_int(3); int f = vp_int(4);
            size_t on = allocs[id].n;
            byte *q = mp_irealloc(pools[allocs[id].p].mp, allocs[id].ptr, on, n, allocs[id].al, z ? 0 : MEM_RAW);
            allocs[id].ptr = q; allocs[id].n = n;
            vp_ev("realloc"); vp_i("id", id); vp_i("n", n); vp_b("zero", z); vp_i("f", f);
            runs("c", q, z ? n : MIN(on, n)); addr(q); vp_end();
            if (!z && n > on) memset(q + on, f, n - on);
        } else if (!strcmp(o, "write")) {
            int id = vp_int(1), f = vp_int(2);
            memset(allocs[id].ptr, f, allocs[id].n);
            vp_ev("write"); vp_i("id", id); vp_i("f", f); vp_end();
        } else if (!strcmp(o, "read")) {
            int id = vp_int(1);
            vp_ev("read"); vp_i("id", id); runs("c", allocs[id].ptr, allocs[id].n); vp_end();
        } else if (!strcmp(o, "free")) {
            int id = vp_int(1);
            vp_ev("free"); vp_i("id", id); runs("c", allocs[id].ptr, allocs[id].n); vp_end();
            mp_ifree(pools[allocs[id].p].mp, allocs[id].ptr);
        } else if (!strcmp(o, "push")) {
            pools[p].frames[pools[p].nf++] = mem_stack_push(pools[p].mp);
            vp_ev("push"); vp_i("p", p); vp_i("f", vp_int(2)); vp_end();
        } else if (!strcmp(o, "pop")) {
            const void *c = mem_stack_pop(pools[p].mp);
            vp_ev("pop"); vp_i("p", p); vp_b("same", c == pools[p].frames[--pools[p].nf]); vp_end();
        } else if (!strcmp(o, "trim")) {
            if (pools[p].kind == STACK) mem_stack_pool_reset(mem_stack_get_pool(pools[p].mp));
            else mem_ring_reset(pools[p].mp);
            vp_ev("trim"); vp_i("p", p); vp_end();
        } else if (!strcmp(o, "attop")) {
            vp_ev("attop"); vp_i("p", p); vp_b("r", mem_stack_pool_is_at_top(mem_stack_get_pool(pools[p].mp))); vp_end();
        } else if (!strcmp(o, "newframe")) {
            int f = vp_int(2);
            ringframes[f] = mem_ring_newframe(pools[p].mp);
            pools[p].frames[0] = ringframes[f];
            vp_ev("newframe"); vp_i("p", p); vp_i("f", f); vp_end();
        } else if (!strcmp(o, "seal")) {
            const void *g = mem_ring_getframe(pools[p].mp);
            const void *c = mem_ring_seal(pools[p].mp);
            vp_ev("seal"); vp_i("p", p); vp_b("same", c == pools[p].frames[0] && g == c); vp_end();
        } else if (!strcmp(o, "release")) {
            vp_ev("release"); vp_i("f", p); vp_end();
            mem_ring_release(ringframes[p]);
        } else if (!strcmp(o, "ckpt")) {
            int k = vp_int(2);
            ckpts[k] = mem_ring_checkpoint(pools[p].mp);
            vp_ev("ckpt"); vp_i("p", p); vp_i("k", k); vp_end();
        } else if (!strcmp(o, "rewind")) {
            int k = vp_int(2);
            mem_ring_rewind(pools[p].mp, ckpts[k]);
            pools[p].frames[0] = mem_ring_getframe(pools[p].mp);
            vp_ev("rewind"); vp_i("k", k); vp_end();
        } else if (!strcmp(o, "delete")) {
            vp_ev("delete"); vp_i("p", p); vp_end();
            switch (pools[p].kind) {
              case STACK: mem_stack_delete(&pools[p].mp); break;
              case RING: mem_ring_delete(&pools[p].mp); break;
              /* the pool keeps the address it was deleted from */
              case FIFO: mem_fifo_pool_delete(&pools[p].mp); break;
            }
        } else if (!strcmp(o, "stats")) {
            ssize_t a, u;
            mem_fifo_pool_stats(pools[p].mp, &a, &u);
            vp_ev("stats"); vp_i("p", p); vp_i("used", u); vp_i("alloc", a); vp_end();
        } else if (!strcmp(o, "footprint")) {
            vp_ev("footprint"); vp_i("p", p); vp_i("n", mem_ring_memory_footprint(pools[p].mp)); vp_end();
        } else if (!strcmp(o, "leaks")) {
            vp_ev("leaks"); vp_i("n", g_blocks - start); vp_end();
            memset(pools, 0, sizeof(pools));
        } else vp_bad();
    }
    vp_done();
    return 0;
}
