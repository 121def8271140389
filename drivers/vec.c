/* Driver for C10: vectors and numeric sorting.
 *   reset KIND POOL     KIND: 0 u8, 1 i32, 2 40-byte structures; POOL: 0 malloc, 1 stack pool, 2 static array, 3 fifo
 *   nset K hex...       K: 0 u8 1 i8 2 u16 3 i16 4 u32 5 i32 6 u64 7 i64
 *   nsort nuniq nbisect hex ncontains hex
 */
#include <lib-common/container-qvector.h>
#include <lib-common/sort.h>
#include "vp.h"

typedef struct rec_t {
    int v;
    int inv;
    uint64_t pad[4];
} rec_t;
qvector_t(rec, rec_t);

static mem_pool_t *the_fifo;

static rec_t rec_mk(int v)
{
    rec_t r = { .v = v, .inv = ~v };

    for (int i = 0; i < 4; i++) {
        r.pad[i] = v * 0x9e3779b97f4a7c15ULL + i;
    }
    return r;
}

static int rec_get(const rec_t *r)
{
    rec_t m = rec_mk(r->v);
    rec_t zero = { .v = 0 };

    if (!memcmp(r, &zero, sizeof(zero))) {
        return 0;
    }
    return memcmp(&m, r, sizeof(m)) ? -99999 : r->v;
}

static int ku8_cmp(const uint8_t *a, const uint8_t *b) { return CMP(*a, *b); }
static int ki32_cmp(const int32_t *a, const int32_t *b) { return CMP(*a, *b); }
static int krec_cmp(const rec_t *a, const rec_t *b) { return CMP(a->v / 4, b->v / 4); }

#define VK ku8
#define VN u8
#define VT uint8_t
#define QV qv_t(u8)
#define MKV(x) ((uint8_t)(x))
#define GETV(p) ((int)*(p))
#define KEYV(p) (*(p))
#include "vec-kind.in.h"

#define VK ki32
#define VN i32
#define VT int32_t
#define QV qv_t(i32)
#define MKV(x) ((int32_t)(x))
#define GETV(p) (*(p))
#define KEYV(p) (*(p))
#include "vec-kind.in.h"

#define VK krec
#define VN rec
#define VT rec_t
#define QV qv_t(rec)
#define MKV(x) rec_mk(x)
#define GETV(p) rec_get(p)
#define KEYV(p) ((p)->v / 4)
#include "vec-kind.in.h"

/* numeric arrays */
static int nk;
static size_t nlen;
static union {
    uint8_t u8[80000]; int8_t i8[80000]; uint16_t u16[80000]; int16_t i16[80000];
    uint32_t u32[80000]; int32_t i32[80000]; uint64_t u64[80000]; int64_t i64[80000];
} na;

#define NKINDS(X)  \
    X(0, u8, uint8_t, dsort8, uniq8, bisect8, contains8) \
    X(1, i8, int8_t, dsort_i8, uniq_i8, bisect_i8, contains_i8) \
    X(2, u16, uint16_t, dsort16, uniq16, bisect16, contains16) \
    X(3, i16, int16_t, dsort_i16, uniq_i16, bisect_i16, contains_i16) \
    X(4, u32, uint32_t, dsort32, uniq32, bisect32, contains32) \
    X(5, i32, int32_t, dsort_i32, uniq_i32, bisect_i32, contains_i32) \
    X(6, u64, uint64_t, dsort64, uniq64, bisect64, contains64) \
    X(7, i64, int64_t, dsort_i64, uniq_i64, bisect_i64, contains_i64)

static uint64_t nget(size_t i)
{
    switch (nk) {
#define X(k, m, t, ...)  case k: return (uint64_t)na.m[i];
    NKINDS(X)
#undef X
    }
    exit(3);
}

static void nput(size_t i, uint64_t v)
{
    switch (nk) {
#define X(k, m, t, ...)  case k: na.m[i] = (t)v; return;
    NKINDS(X)
#undef X
    }
    exit(3);
}

static void parts(uint64_t v)
{
    vp_sep();
    fprintf(vp_out, "[%u,%u,%u,%u]", (unsigned)(v >> 48), (unsigned)(v >> 32) & 0xffff,
            (unsigned)(v >> 16) & 0xffff, (unsigned)v & 0xffff);
}

static void ndump(void)
{
    vp_arr("tab");
    for (size_t i = 0; i < nlen; i++) {
        parts(nget(i));
    }
    vp_arr_end();
    vp_end();
}

int main(void)
{
    int kind = -1;

    vp_init();
    mem_stack_push(t_pool());
    the_fifo = mem_fifo_pool_new("vec", 4096);
    while (vp_next()) {
        if (vp_is("reset")) {
            switch (kind) {
              case 0: ku8_wipe_all(); break;
              case 1: ki32_wipe_all(); break;
              case 2: krec_wipe_all(); break;
            }
            mem_stack_pop(t_pool());
            mem_stack_push(t_pool());
            kind = vp_int(1);
            switch (kind) {
              case 0: ku8_init(vp_int(2)); break;
              case 1: ki32_init(vp_int(2)); break;
              case 2: krec_init(vp_int(2)); break;
              default: exit(3);
            }
            vp_ev("reset"); vp_i("kind", kind); vp_end();
        } else
        if (vp_is("nset")) {
            nk = vp_int(1);
            nlen = vp_argc - 2;
            if (nlen > 4096) {
                exit(3);
            }
            for (size_t i = 0; i < nlen; i++) {
                nput(i, strtoull(vp_arg(2 + i), NULL, 16));
            }
            vp_ev("nset"); vp_b("sgn", nk & 1); ndump();
        } else
        if (vp_is("ngen")) { /* ngen K n seed and or: many numbers, all different */
            uint64_t x = vp_u64(3) | 1;

            nk = vp_int(1);
            nlen = vp_int(2);
            if (nlen > 80000) {
                exit(3);
            }
            for (size_t i = 0; i < nlen; i++) {
                x ^= x << 13; x ^= x >> 7; x ^= x << 17;
                nput(i, (((x & strtoull(vp_arg(4), NULL, 16)) | strtoull(vp_arg(5), NULL, 16)) & ~0x1ffffULL)
                     | ((i * 77773) & 0x1ffff));
            }
            vp_ev("nset"); vp_b("sgn", nk & 1); ndump();
        } else
        if (vp_is("nsort")) {
            switch (nk) {
#define X(k, m, t, sort, uniq, bis, cont)  case k: sort(na.m, nlen); break;
            NKINDS(X)
#undef X
            }
            vp_ev("nsort"); ndump();
        } else
        if (vp_is("nuniq")) {
            switch (nk) {
#define X(k, m, t, sort, uniq, bis, cont)  case k: nlen = uniq(na.m, nlen); break;
            NKINDS(X)
#undef X
            }
            vp_ev("nuniq"); ndump();
        } else
        if (vp_is("nbisect")) {
            uint64_t v = strtoull(vp_arg(1), NULL, 16), vv = 0;
            bool found = false, has = false;
            size_t p = 0;

            switch (nk) {
#define X(k, m, t, sort, uniq, bis, cont) \
              case k: vv = (uint64_t)(t)v; p = bis((t)v, na.m, nlen, &found); has = cont((t)v, na.m, nlen); break;
            NKINDS(X)
#undef X
            }
            vp_ev("nbisect"); vp_arr("x"); vp_first = true;
            parts(vv);
            vp_arr_end();
            vp_i("p", p); vp_b("found", found); vp_b("has", has);
            vp_end();
        } else {
            bool ok;

            switch (kind) {
              case 0: ok = ku8_op(); break;
              case 1: ok = ki32_op(); break;
              case 2: ok = krec_op(); break;
              default: exit(3);
            }
            if (!ok) {
                vp_bad();
            }
        }
    }
    vp_done();
    return 0;
}
