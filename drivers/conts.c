/* Driver for C11: doubly linked lists, head/tail lists, rings, heaps and ordered trees. */
#include <lib-common/container-dlist.h>
#include <lib-common/container-htlist.h>
#include <lib-common/container-ring.h>
#include <lib-common/container-qheap.h>
#include <lib-common/container-rbtree.h>
#include "vp.h"

#define NN 24

/* {{{ dlist */

typedef struct dn_t { int id; dlist_t link; } dn_t;
static dn_t dn[2][NN];      /* two places for each node */
static int dplace[NN];
static dlist_t dl[2];

static dn_t *D(int id)
{
    if (id < 0 || id >= NN) {
        exit(3);
    }
    return &dn[dplace[id]][id];
}

static dlist_t *DL(int i)
{
    if (i < 0 || i > 1) {
        exit(3);
    }
    return &dl[i];
}

static void dl_init(void)
{
    for (int i = 0; i < NN; i++) {
        for (int j = 0; j < 2; j++) {
            dn[j][i].id = i;
            dlist_init(&dn[j][i].link);
        }
        dplace[i] = 0;
    }
    dlist_init(&dl[0]);
    dlist_init(&dl[1]);
}

static void dl_state(void)
{
    for (int i = 0; i < 2; i++) {
        int n = 0;

        vp_arr(i ? "f1" : "f0");
        if (vp_argc & 1) {
            dlist_for_each(it, &dl[i]) {
                if (n++ > 2 * NN) {
                    break;
                }
                vp_ai(dlist_entry(it, dn_t, link)->id);
            }
        } else {
            dlist_for_each_entry(dn_t, e, &dl[i], link) {
                if (n++ > 2 * NN) {
                    break;
                }
                vp_ai(e->id);
            }
        }
        vp_arr_end();
        n = 0;
        vp_arr(i ? "b1" : "b0");
        dlist_for_each_rev(it, &dl[i]) {
            if (n++ > 2 * NN) {
                break;
            }
            vp_ai(dlist_entry(it, dn_t, link)->id);
        }
        vp_arr_end();
        vp_arr(i ? "q1" : "q0");
        vp_ai(dlist_is_empty(&dl[i]));
        vp_ai(dlist_is_singular(&dl[i]));
        vp_ai(dlist_is_empty_or_singular(&dl[i]));
        vp_arr_end();
    }
    vp_arr("det"); /* detached nodes */
    for (int i = 0; i < NN; i++) {
        if (dlist_is_empty(&D(i)->link)) {
            vp_ai(i);
        }
    }
    vp_arr_end();
    vp_end();
}

static bool dl_op(void)
{
    if (vp_is("dreset")) {
        dl_init();
        vp_ev("dreset");
    } else
    if (vp_is("dadd") || vp_is("dtail") || vp_is("dmove") || vp_is("dmovet")) {
        dlist_t *l = DL(vp_int(1));
        dlist_t *e = &D(vp_int(2))->link;

        vp_ev(vp_argv[0]); vp_i("l", vp_int(1)); vp_i("e", vp_int(2));
        if (vp_is("dadd")) {
            dlist_add(l, e);
        } else
        if (vp_is("dtail")) {
            dlist_add_tail(l, e);
        } else
        if (vp_is("dmove")) {
            dlist_move(l, e);
        } else {
            dlist_move_tail(l, e);
        }
    } else
    if (vp_is("dafter") || vp_is("dbefore")) {
        vp_ev(vp_argv[0]); vp_i("e", vp_int(1)); vp_i("n", vp_int(2));
        if (vp_is("dafter")) {
            dlist_add_after(&D(vp_int(1))->link, &D(vp_int(2))->link);
        } else {
            dlist_add_before(&D(vp_int(1))->link, &D(vp_int(2))->link);
        }
    } else
    if (vp_is("drem")) {
        vp_ev("drem"); vp_i("e", vp_int(1));
        dlist_remove(&D(vp_int(1))->link);
    } else
    if (vp_is("dpop")) {
        vp_ev("dpop"); vp_i("l", vp_int(1));
        vp_i("r", dlist_first_entry(DL(vp_int(1)), dn_t, link)->id);
        dlist_pop(DL(vp_int(1)));
    } else
    if (vp_is("dsplice") || vp_is("dsplicet")) {
        vp_ev(vp_argv[0]); vp_i("d", vp_int(1)); vp_i("s", vp_int(2));
        if (vp_is("dsplice")) {
            dlist_splice(DL(vp_int(1)), DL(vp_int(2)));
        } else {
            dlist_splice_tail(DL(vp_int(1)), DL(vp_int(2)));
        }
    } else
    if (vp_is("dcut")) { /* dcut s e d ; e = -1: the list itself */
        int e = vp_int(2);

        vp_ev("dcut"); vp_i("s", vp_int(1)); vp_i("e", e); vp_i("d", vp_int(3));
        dlist_cut_at(DL(vp_int(1)), e < 0 ? DL(vp_int(1)) : &D(e)->link, DL(vp_int(3)));
    } else
    if (vp_is("drepair")) { /* the node moves in memory */
        int id = vp_int(1);
        bool was_empty = dlist_is_empty(&D(id)->link);
        dn_t *old = D(id);

        dplace[id] ^= 1;
        *D(id) = *old;
        if (was_empty) {
            dlist_init(&D(id)->link);
        } else {
            __dlist_repair(&D(id)->link);
        }
        memset(old, 0xdb, sizeof(*old));
        vp_ev("drepair"); vp_i("e", id);
    } else
    if (vp_is("dfilter")) { /* remove while walking: dfilter l how mod */
        int l = vp_int(1), how = vp_int(2), mod = vp_int(3);

        vp_ev("dfilter"); vp_i("l", l); vp_i("mod", mod); vp_i("how", how);
        vp_arr("seen");
        if (how == 0) {
            dlist_for_each_entry(dn_t, e, DL(l), link) {
                vp_ai(e->id);
                if (e->id % mod == 0) {
                    dlist_remove(&e->link);
                }
            }
        } else
        if (how == 1) {
            dlist_for_each_rev(it, DL(l)) {
                dn_t *e = dlist_entry(it, dn_t, link);

                vp_ai(e->id);
                if (e->id % mod == 0) {
                    dlist_remove(it);
                }
            }
        } else {
            dlist_for_each(it, DL(l)) {
                dn_t *e = dlist_entry(it, dn_t, link);

                vp_ai(e->id);
                if (e->id % mod == 0) {
                    dlist_remove(it);
                }
            }
        }
        vp_arr_end();
    } else
    if (vp_is("dwalk")) { /* walk from an element: dwalk l e how */
        int l = vp_int(1), how = vp_int(3);
        dn_t *pos = D(vp_int(2));

        vp_ev("dwalk"); vp_i("l", l); vp_i("e", vp_int(2)); vp_i("how", how);
        vp_b("first", dlist_is_first(DL(l), &pos->link));
        vp_b("last", dlist_is_last(DL(l), &pos->link));
        vp_arr("seen");
        switch (how) {
          case 0:
            dlist_for_each_entry_start(pos, n, DL(l), link) {
                vp_ai(n->id);
            }
            break;
          case 1:
            dlist_for_each_entry_after(pos, n, DL(l), link) {
                vp_ai(n->id);
            }
            break;
          case 2:
            dlist_for_each_rev_start(&pos->link, n, DL(l)) {
                vp_ai(dlist_entry(n, dn_t, link)->id);
            }
            break;
          case 3:
            dlist_for_each_rev_continue(&pos->link, n, DL(l)) {
                vp_ai(dlist_entry(n, dn_t, link)->id);
            }
            break;
          case 4: {
            dn_t *n = pos;

            dlist_for_each_entry_continue(n, DL(l), link) {
                vp_ai(n->id);
            }
            break;
          }
          default:
            exit(3);
        }
        vp_arr_end();
    } else {
        return false;
    }
    dl_state();
    return true;
}

/* }}} */
/* {{{ htlist */

typedef struct hn_t { int id; htnode_t link; } hn_t;
static hn_t hn[NN];
static htlist_t hl[2];

static void ht_del(hn_t **e)
{
    vp_ai((*e)->id);
    /* the node must not be used any more */
    memset(&(*e)->link, 0xdb, sizeof((*e)->link));
}

static void ht_state(void)
{
    for (int i = 0; i < 2; i++) {
        int n = 0;
        hn_t *e;

        vp_arr(i ? "f1" : "f0");
        if (vp_argc & 1) {
            htlist_for_each(it, &hl[i]) {
                if (n++ > 2 * NN) {
                    break;
                }
                vp_ai(htlist_entry(it, hn_t, link)->id);
            }
        } else {
            htlist_for_each_entry(e, &hl[i], link) {
                if (n++ > 2 * NN) {
                    break;
                }
                vp_ai(e->id);
            }
        }
        vp_arr_end();
        vp_b(i ? "e1" : "e0", htlist_is_empty(&hl[i]));
        vp_i(i ? "t1" : "t0", htlist_is_empty(&hl[i]) ? -1 : htlist_last_entry(&hl[i], hn_t, link)->id);
        vp_i(i ? "h1" : "h0", htlist_is_empty(&hl[i]) ? -1 : htlist_first_entry(&hl[i], hn_t, link)->id);
    }
    vp_end();
}

static hn_t *H(int id)
{
    if (id < 0 || id >= NN) {
        exit(3);
    }
    return &hn[id];
}

static htlist_t *HL(int i)
{
    if (i < 0 || i > 1) {
        exit(3);
    }
    return &hl[i];
}

static bool ht_op(void)
{
    vp_ev(vp_argv[0]);
    if (vp_is("hreset")) {
        for (int i = 0; i < NN; i++) {
            memset(&hn[i], 0xdb, sizeof(hn[i]));
            hn[i].id = i;
        }
        htlist_init(&hl[0]);
        htlist_init(&hl[1]);
    } else
    if (vp_is("hadd") || vp_is("htail")) {
        vp_i("l", vp_int(1)); vp_i("e", vp_int(2));
        if (vp_is("hadd")) {
            htlist_add(HL(vp_int(1)), &H(vp_int(2))->link);
        } else {
            htlist_add_tail(HL(vp_int(1)), &H(vp_int(2))->link);
        }
    } else
    if (vp_is("hafter")) { /* hafter l prev|-1 n */
        int p = vp_int(2);
        hn_t *prev = p < 0 ? NULL : H(p);

        vp_i("l", vp_int(1)); vp_i("p", p); vp_i("e", vp_int(3));
        if (vp_int(3) & 1) {
            htlist_add_entry_after(HL(vp_int(1)), prev, H(vp_int(3)), link);
        } else {
            htlist_add_after(HL(vp_int(1)), prev ? &prev->link : NULL, &H(vp_int(3))->link);
        }
    } else
    if (vp_is("hpop")) {
        vp_i("l", vp_int(1));
        vp_i("r", htlist_pop_entry(HL(vp_int(1)), hn_t, link)->id);
    } else
    if (vp_is("hsplice") || vp_is("hsplicet")) {
        vp_i("d", vp_int(1)); vp_i("s", vp_int(2));
        if (vp_is("hsplice")) {
            htlist_splice(HL(vp_int(1)), HL(vp_int(2)));
        } else {
            htlist_splice_tail(HL(vp_int(1)), HL(vp_int(2)));
        }
        htlist_init(HL(vp_int(2)));
    } else
    if (vp_is("hmove")) {
        vp_i("d", vp_int(1)); vp_i("s", vp_int(2));
        htlist_move(HL(vp_int(1)), HL(vp_int(2)));
    } else
    if (vp_is("hwalk")) {
        vp_i("l", vp_int(1)); vp_i("e", vp_int(2));
        vp_arr("seen");
        htlist_for_each_start(&H(vp_int(2))->link, n, HL(vp_int(1))) {
            vp_ai(htlist_entry(n, hn_t, link)->id);
        }
        vp_arr_end();
    } else
    if (vp_is("hclear")) {
        vp_i("l", vp_int(1));
        vp_arr("seen");
        htlist_deep_clear(HL(vp_int(1)), hn_t, link, ht_del);
        vp_arr_end();
    } else {
        exit(3);
    }
    ht_state();
    return true;
}

/* }}} */
/* {{{ ring */

static void rg_nothing(int *v) { }
DO_RING(int, rg, rg_nothing);
typedef struct big_t { int v; uint64_t pad[3]; } big_t;
static void rgb_nothing(big_t *v) { }
DO_RING(big_t, rgb, rgb_nothing);
static rg_ring rg;
static rgb_ring rgb;
static bool rg_big;

static big_t mkb(int v)
{
    return (big_t){ .v = v, .pad = { v * 3ULL, v * 5ULL, ~(uint64_t)v } };
}

static int getb(const big_t *b)
{
    return b->pad[0] == b->v * 3ULL && b->pad[1] == b->v * 5ULL && b->pad[2] == ~(uint64_t)b->v ? b->v : -99999;
}

static void rg_show(int *v) { vp_ai(*v); }
static void rgb_show(big_t *v) { vp_ai(getb(v)); }

static void rg_state(void)
{
    vp_arr("map");
    if (rg_big) {
        RING_MAP(&rgb, rgb_show);
    } else {
        RING_MAP(&rg, rg_show);
    }
    vp_arr_end();
    vp_arr("ptrs");
    if (rg_big) {
        ring_for_each_ptr(rgb, p, &rgb) {
            vp_ai(getb(p));
        }
    } else {
        ring_for_each_ptr(rg, p, &rg) {
            vp_ai(*p);
        }
    }
    vp_arr_end();
    vp_arr("ents");
    if (rg_big) {
        ring_for_each_entry(rgb, e, &rgb) {
            vp_ai(getb(&e));
        }
    } else {
        ring_for_each_entry(rg, e, &rg) {
            vp_ai(e);
        }
    }
    vp_arr_end();
    vp_arr("gets");
    for (int i = 0; i < (rg_big ? rgb.len : rg.len); i++) {
        if (rg_big) {
            big_t b = rgb_ring_get(&rgb, i);

            vp_ai(memcmp(&b, rgb_ring_get_ptr(&rgb, i), sizeof(b)) ? -99998 : getb(&b));
        } else {
            vp_ai(rg_ring_get(&rg, i) == *rg_ring_get_ptr(&rg, i) ? rg_ring_get(&rg, i) : -99998);
        }
    }
    vp_arr_end();
    vp_end();
}

static bool rg_keep(int *v, int mod) { return *v % mod != 0; }
static bool rgb_keep(big_t *v, int mod) { return v->v % mod != 0; }

static void rg_op(void)
{
    if (vp_is("rreset")) {
        rg_ring_wipe(&rg);
        rgb_ring_wipe(&rgb);
        rg_ring_init(&rg);
        rgb_ring_init(&rgb);
        rg_big = vp_int(1);
        vp_ev("rreset");
    } else
    if (vp_is("rpush") || vp_is("runshift")) {
        int x = vp_int(1);

        vp_ev(vp_argv[0]); vp_i("x", x);
        if (vp_is("rpush")) {
            if (rg_big) {
                rgb_ring_push(&rgb, mkb(x));
            } else {
                rg_ring_push(&rg, x);
            }
        } else {
            if (rg_big) {
                rgb_ring_unshift(&rgb, mkb(x));
            } else {
                rg_ring_unshift(&rg, x);
            }
        }
    } else
    if (vp_is("rshift") || vp_is("rpop")) {
        int x = 0;
        big_t b = mkb(0);
        bool ok;

        if (vp_is("rshift")) {
            ok = rg_big ? rgb_ring_shift(&rgb, &b) : rg_ring_shift(&rg, &x);
        } else {
            ok = rg_big ? rgb_ring_pop(&rgb, &b) : rg_ring_pop(&rg, &x);
        }
        vp_ev(vp_argv[0]); vp_b("ok", ok); vp_i("x", rg_big ? getb(&b) : x);
    } else
    if (vp_is("rskip")) {
        int n = vp_int(1);

        vp_ev("rskip"); vp_i("n", n);
        vp_b("ok", rg_big ? rgb_ring_skip(&rgb, n) : rg_ring_skip(&rg, n));
    } else
    if (vp_is("rfilter")) {
        int mod = vp_int(1);

        vp_ev("rfilter"); vp_i("mod", mod);
        if (rg_big) {
            RING_FILTER(&rgb, rgb_keep, mod);
        } else {
            RING_FILTER(&rg, rg_keep, mod);
        }
    } else {
        exit(3);
    }
    rg_state();
}

/* }}} */
/* {{{ heap */

typedef struct pe_t { int id, key, pos; } pe_t;
#define PE_CMP(a, op, b)  ((a)->key op (b)->key)
#define PE_SET(n, p)      ((n)->pos = (p))
qhp_min_t(pmin, pe_t *, PE_CMP, PE_SET);
qhp_max_t(pmax, pe_t *, PE_CMP, PE_SET);

#define NP 60
static pe_t pe[NP];
static qhp_t(pmin) pmin;
static qhp_t(pmax) pmax;
static bool pismax;

static void hp_state(void)
{
    vp_arr("tab");
    if (pismax) {
        qhp_for_each_pos(pmax, pos, &pmax) {
            vp_ai(qhp_get(pmax, &pmax, pos)->id);
        }
    } else {
        qhp_for_each_pos(pmin, pos, &pmin) {
            vp_ai(qhp_get(pmin, &pmin, pos)->id);
        }
    }
    vp_arr_end();
    vp_arr("pos");
    for (int i = 0; i < NP; i++) {
        vp_ai(pe[i].pos);
    }
    vp_arr_end();
    vp_end();
}

#define SCALARS(X)  \
    X(0, i8_min) X(1, i8_max) X(2, u8_min) X(3, u8_max) X(4, i16_min) X(5, i16_max) X(6, u16_min) X(7, u16_max) \
    X(8, i32_min) X(9, i32_max) X(10, u32_min) X(11, u32_max) X(12, i64_min) X(13, i64_max) X(14, u64_min) \
    X(15, u64_max) X(16, double_min) X(17, double_max)

static void hp_op(void)
{
    if (vp_is("preset")) {
        for (int i = 0; i < NP; i++) {
            pe[i] = (pe_t){ .id = i, .pos = -1 };
        }
        qhp_wipe(pmin, &pmin); qhp_init(pmin, &pmin);
        qhp_wipe(pmax, &pmax); qhp_init(pmax, &pmax);
        pismax = vp_int(1);
        vp_ev("preset"); vp_b("max", pismax);
    } else
    if (vp_is("pins")) {
        pe_t *e = &pe[vp_int(1)];

        e->key = vp_int(2);
        vp_ev("pins"); vp_i("e", e->id); vp_i("k", e->key);
        vp_i("r", pismax ? qhp_insert(pmax, &pmax, e) : qhp_insert(pmin, &pmin, e));
    } else
    if (vp_is("pfix")) { /* change the key of an element */
        pe_t *e = &pe[vp_int(1)];

        e->key = vp_int(2);
        vp_ev("pfix"); vp_i("e", e->id); vp_i("k", e->key);
        vp_i("r", pismax ? qhp_fixup(pmax, &pmax, e->pos) : qhp_fixup(pmin, &pmin, e->pos));
    } else
    if (vp_is("prem")) {
        pe_t *e = &pe[vp_int(1)];

        vp_ev("prem"); vp_i("e", e->id);
        e = pismax ? qhp_remove(pmax, &pmax, e->pos) : qhp_remove(pmin, &pmin, e->pos);
        vp_i("r", e->id);
    } else
    if (vp_is("ptake")) {
        pe_t *e = pismax ? qhp_take_first(pmax, &pmax) : qhp_take_first(pmin, &pmin);

        vp_ev("ptake"); vp_i("r", e->id);
    } else
    if (vp_is("psort")) { /* psort kind values... : out they come in order (small values) */
        int kind = vp_int(1);

        vp_ev("psort"); vp_b("max", kind & 1);
        vp_arr("in");
        for (int i = 2; i < vp_argc; i++) {
            vp_ai(vp_int(i));
        }
        vp_arr_end();
        vp_arr("out");
        switch (kind) {
#define X(k, n)  \
          case k: {                                                          \
            qhp_t(n) h;                                                      \
                                                                             \
            qhp_init(n, &h);                                                 \
            for (int i = 2; i < vp_argc; i++) {                              \
                qhp_insert(n, &h, vp_int(i));                                \
            }                                                                \
            while (!qhp_is_empty(n, &h)) {                                   \
                vp_ai((long long)qhp_take_first(n, &h));                     \
            }                                                                \
            qhp_wipe(n, &h);                                                 \
            break;                                                           \
          }
        SCALARS(X)
#undef X
        default: exit(3);
        }
        vp_arr_end();
        vp_end();
        return;
    } else {
        exit(3);
    }
    hp_state();
}

/* }}} */
/* {{{ ordered tree */

typedef struct tn_t { int key; int id; rb_node_t node; } tn_t;
#define TN_KEY(n)  ((n)->key)
rb_tree_t(tn, tn_t, int, node, TN_KEY, CMP);
#define NT 4096
static tn_t tn[NT];
static int ntn;
static rb_t(tn) tree;

static int rb_height(const rb_node_t *n)
{
    int a, b;

    if (!n) {
        return 0;
    }
    a = rb_height(n->left);
    b = rb_height(n->right);
    return 1 + MAX(a, b);
}

static void rb_dump(void)
{
    int n = 0;

    vp_arr("fwd");
    rb_for_each(tn, it, &tree) {
        if (n++ > NT) {
            break;
        }
        vp_sep();
        fprintf(vp_out, "[%d,%d]", it->key, it->id);
    }
    vp_arr_end();
    n = 0;
    vp_arr("bwd");
    for (tn_t *it = rb_last(tn, &tree); it && n++ <= NT; it = rb_prev(tn, it)) {
        vp_sep();
        fprintf(vp_out, "[%d,%d]", it->key, it->id);
    }
    vp_arr_end();
    vp_i("height", rb_height(tree.root));
}

static void tn_noop(tn_t **n) { vp_ai((*n)->id); memset(*n, 0xdb, sizeof(**n)); }

static int ID(const tn_t *n) { return n ? n->id : -1; }

static void rb_op(void)
{
    vp_ev(vp_argv[0]);
    if (vp_is("treset")) {
        rb_init(tn, &tree);
        ntn = 0;
    } else
    if (vp_is("tins")) {
        int k = vp_int(1);
        tn_t *n = &tn[ntn], *old;

        if (ntn >= NT) {
            exit(3);
        }
        n->key = k;
        n->id = ntn++;
        vp_i("k", k); vp_i("id", n->id);
        if (vp_int(2)) {
            bool c;
            rb_node_t *parent;
            rb_node_t **slot = rb_find_slot(tn, &tree, k, &parent, &c);

            old = NULL;
            if (c) {
                old = rb_entry(tn, *slot);
            } else {
                rb_insert_at(tn, &tree, parent, slot, n);
            }
        } else {
            old = rb_insert(tn, &tree, n);
        }
        vp_i("r", ID(old));
    } else
    if (vp_is("trem")) {
        int k = vp_int(1);
        tn_t *n;

        vp_i("k", k);
        if (vp_int(2)) {
            n = rb_find(tn, &tree, k);
            if (n) {
                rb_remove(tn, &tree, n);
            }
        } else {
            n = rb_tn_remove_key(&tree, k);
        }
        vp_i("r", ID(n));
        if (n) {
            memset(&n->node, 0xdb, sizeof(n->node));
        }
    } else
    if (vp_is("tfind")) {
        int k = vp_int(1);

        vp_i("k", k);
        vp_i("r", ID(rb_find(tn, &tree, k)));
        vp_i("up", ID(rb_find_upper(tn, &tree, k)));
        vp_i("lo", ID(rb_find_lower(tn, &tree, k)));
    } else
    if (vp_is("tdump")) {
        rb_dump();
    } else
    if (vp_is("tfilter")) { /* remove while walking */
        int mod = vp_int(1);

        vp_i("mod", mod);
        rb_for_each_safe(tn, it, &tree) {
            if (it->key % mod == 0) {
                rb_remove(tn, &tree, it);
                memset(&it->node, 0xdb, sizeof(it->node));
            }
        }
        rb_dump();
    } else
    if (vp_is("twipe")) {
        vp_arr("seen");
        rb_deep_wipe(tn, &tree, tn_noop);
        vp_arr_end();
    } else {
        exit(3);
    }
    vp_end();
}

/* }}} */

int main(void)
{
    vp_init();
    dl_init();
    while (vp_next()) {
        switch (vp_argv[0][0]) {
          case 'd': if (!dl_op()) { vp_bad(); } break;
          case 'h': ht_op(); break;
          case 'r': rg_op(); break;
          case 'p': hp_op(); break;
          case 't': rb_op(); break;
          default: vp_bad();
        }
    }
    vp_done();
    return 0;
}
