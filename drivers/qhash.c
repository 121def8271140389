/* Drives the hash sets and maps of every key kind through their public macros. */
#include <lib-common/container.h>
#include <lib-common/core.h>
#include "vp.h"

typedef struct { int a; int b; int pad; } val_t;

#define NK 8192
typedef struct vkey_t { int id; int ver; uint8_t x; } vkey_t;
static int pattern;
static mem_pool_t *g_pool;

static uint64_t spread(int i)
{
    uint64_t k = (uint64_t)i;
    switch (pattern) {
      case 0: return k;
      case 1: return (k + 1) * 0x9E3779B97F4A7C15ULL;
      case 2: return k * 769;                   /* same slot modulo a table size */
      case 3: return k << 33 | 5;
      default: return k * 11 * 23 * 53;
    }
}
static uint32_t weak(int i)
{
    switch (pattern) {
      case 0: return i;
      case 1: return (uint32_t)((i + 1) * 2654435761U);
      case 2: return (i % 13) * 769;
      case 3: return i / 3;
      default: return i % 97 + 0xfffffff0U;
    }
}
/* inverse maps */
static int unspread(uint64_t k, bool is32)
{
    for (int i = 0; i < NK; i++) {
        if ((is32 ? (uint64_t)(uint32_t)spread(i) : spread(i)) == k) return i;
    }
    return -5;
}
static uint64_t sp_inv[NK];
#define SZ 32768
static struct { uint64_t k; int id; bool used; } inv32[SZ], inv64[SZ];
static void inv_build(void)
{
    memset(inv32, 0, sizeof(inv32)); memset(inv64, 0, sizeof(inv64));
    for (int i = 0; i < NK; i++) {
        uint64_t k = spread(i), k32 = (uint32_t)k;
        uint32_t p = (k * 0x9E3779B97F4A7C15ULL) >> 49;
        while (inv64[p].used) p = (p + 1) % SZ;
        inv64[p].k = k; inv64[p].id = i; inv64[p].used = true;
        p = (k32 * 0x9E3779B97F4A7C15ULL) >> 49;
        while (inv32[p].used && inv32[p].k != k32) p = (p + 1) % SZ;
        if (inv32[p].used) continue; /* pattern 3: no 32 bit kinds */
        inv32[p].k = k32; inv32[p].id = i; inv32[p].used = true;
    }
}
static int id64(uint64_t k)
{
    uint32_t p = (k * 0x9E3779B97F4A7C15ULL) >> 49;
    while (inv64[p].used) { if (inv64[p].k == k) return inv64[p].id; p = (p + 1) % SZ; }
    return -5;
}
static int id32(uint64_t k)
{
    uint32_t p = (k * 0x9E3779B97F4A7C15ULL) >> 49;
    while (inv32[p].used) { if (inv32[p].k == k) return inv32[p].id; p = (p + 1) % SZ; }
    return -5;
}
static vkey_t vkeys[4][NK];
static char strs[4][NK][24];
static lstr_t lstrs[4][NK];

static uint32_t vk_hash(const qhash_t *qh, const vkey_t *k) { return weak(k->id); }
static bool vk_equ(const qhash_t *qh, const vkey_t *a, const vkey_t *b) { return a->id == b->id; }

qm_k32_t(m32, val_t);   qh_k32_t(s32);
qm_k64_t(m64, val_t);   qh_k64_t(s64);
qm_k128_t(m128, val_t); qh_k128_t(s128);
qm_kvec_t(mvec, vkey_t, val_t, vk_hash, vk_equ); qh_kvec_t(svec, vkey_t, vk_hash, vk_equ);
qm_kptr_t(mptr, vkey_t, val_t, vk_hash, vk_equ); qh_kptr_t(sptr, vkey_t, vk_hash, vk_equ);
qm_khptr_t(mhptr, vkey_t, val_t); qh_khptr_t(shptr, vkey_t);
qm_kvec_t(mlstr, lstr_t, val_t, qhash_lstr_hash, qhash_lstr_equal);
qm_kptr_t(mstr, char, val_t, qhash_str_hash, qhash_str_equal);

#define mp_init_f(h, KIND, cached, mp)  qhash_init(&(h)->qh, sizeof((h)->keys[0]), MPV(h), (cached), (mp))

static uint128_t k128(int i) { return (uint128_t)spread(i) << 64 | (uint64_t)(i % 3); }

#define MPV(h) sizeof((h)->values[0])
#define ISMAP 1
#define KIND m32
#define UNIQ m32
#define KEY(i, v) ((uint32_t)spread(i))
#define KID(k) id32(k)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND m64
#define UNIQ m64
#define KEY(i, v) spread(i)
#define KID(k) id64(k)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND m128
#define UNIQ m128
#define KEY(i, v) k128(i)
#define KID(k) ({ int _i = id64((k) >> 64); _i >= 0 && k128(_i) == (k) ? _i : -6; })
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND mvec
#define UNIQ mvec
#define KEY(i, v) (&vkeys[v][i])
#define KID(k) ((k).id)
#define KVER(k) ((k).ver)
#define KHASVER 1
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND mptr
#define UNIQ mptr
#define KEY(i, v) (&vkeys[v][i])
#define KID(k) ((k)->id)
#define KVER(k) ((k)->ver)
#define KHASVER 1
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND mhptr
#define UNIQ mhptr
#define KEY(i, v) (&vkeys[1][i])
#define KID(k) ((k)->id)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND mlstr
#define UNIQ mlstr
#define KEY(i, v) (&lstrs[v][i])
#define KID(k) atoi((k).s + 3)
#define KVER(k) (int)(((k).s - &strs[0][0][0]) / sizeof(strs[0]))
#define KHASVER 1
#include "qhash-kind.in.h"
#define ISMAP 1
#define KIND mstr
#define UNIQ mstr
#define KEY(i, v) (&strs[v][i][0])
#define KID(k) atoi((k) + 3)
#define KVER(k) (int)(((k) - &strs[0][0][0]) / sizeof(strs[0]))
#define KHASVER 1
#include "qhash-kind.in.h"
#undef MPV
#define MPV(h) 0
#define ISMAP 0
#define KIND s32
#define UNIQ s32
#define KEY(i, v) ((uint32_t)spread(i))
#define KID(k) id32(k)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 0
#define KIND s64
#define UNIQ s64
#define KEY(i, v) spread(i)
#define KID(k) id64(k)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 0
#define KIND s128
#define UNIQ s128
#define KEY(i, v) k128(i)
#define KID(k) ({ int _i = id64((k) >> 64); _i >= 0 && k128(_i) == (k) ? _i : -6; })
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"
#define ISMAP 0
#define KIND svec
#define UNIQ svec
#define KEY(i, v) (&vkeys[v][i])
#define KID(k) ((k).id)
#define KVER(k) ((k).ver)
#define KHASVER 1
#include "qhash-kind.in.h"
#define ISMAP 0
#define KIND sptr
#define UNIQ sptr
#define KEY(i, v) (&vkeys[v][i])
#define KID(k) ((k)->id)
#define KVER(k) ((k)->ver)
#define KHASVER 1
#include "qhash-kind.in.h"
#define ISMAP 0
#define KIND shptr
#define UNIQ shptr
#define KEY(i, v) (&vkeys[1][i])
#define KID(k) ((k)->id)
#define KVER(k) 1
#define KHASVER 0
#include "qhash-kind.in.h"

static struct { const char *name; void (*step)(void); } kinds[] = {
#define K(n) { #n, step_##n }
    K(m32), K(m64), K(m128), K(mvec), K(mptr), K(mhptr), K(mlstr), K(mstr),
    K(s32), K(s64), K(s128), K(svec), K(sptr), K(shptr),
};

int main(void)
{
    void (*step)(void) = NULL;

    vp_init();
    for (int v = 0; v < 4; v++) {
        for (int i = 0; i < NK; i++) {
            vkeys[v][i] = (vkey_t){ .id = i, .ver = v, .x = i };
            snprintf(strs[v][i], sizeof(strs[v][i]), "key%d", i);
            lstrs[v][i] = LSTR(strs[v][i]);
        }
    }
    while (vp_next()) {
        if (vp_is("reset")) {
            step = NULL;
            for (int i = 0; i < countof(kinds); i++)
                if (!strcmp(kinds[i].name, vp_arg(1))) step = kinds[i].step;
            if (!step) vp_bad();
            pattern = vp_int(2);
            inv_build();
            g_pool = &mem_pool_libc;
        }
        step();
    }
    vp_done();
    return 0;
}
