/* IOP values: build from a script, pack, unpack, copy, compare, convert. */
#include <lib-common/core.h>
#include <lib-common/thr.h>
#include <lib-common/iop.h>
#include <lib-common/iop-json.h>
#include <lib-common/iop-yaml.h>
#include <lib-common/hash.h>
#include <lib-common/xmlpp.h>
#include <lib-common/xmlr.h>
#include <lib-common/iop/internals.h>
#include "vpt.iop.h"
#include "vp.h"

#define NSLOT 8
typedef struct slot_t {
    const iop_struct_t *st;
    void *v;
    mem_pool_t *mp;
    void *heap;           /* single block allocated by dup, or NULL */
} slot_t;
static slot_t slots[NSLOT];
static struct { uint8_t *b; size_t n; } wires[NSLOT];

static const iop_struct_t *st_of(const char *name)
{
    for (const iop_struct_t * const *p = vpt__pkg.structs; *p; p++) {
        if (!strcmp((*p)->fullname.s + 4, name)) {
            return *p;
        }
    }
    fprintf(stderr, "no type %s\n", name);
    exit(3);
}

static void slot_drop(slot_t *s)
{
    if (s->mp) {
        mem_stack_pop(s->mp);
        mem_stack_delete(&s->mp);
    }
    mp_ifree(&mem_pool_libc, s->heap);
    p_clear(s, 1);
}
static slot_t *slot_new(int i)
{
    slot_t *s = &slots[i];

    slot_drop(s);
    s->mp = mem_stack_new("slot", 4096);
    mem_stack_push(s->mp);
    return s;
}
static slot_t *slot(int argn)
{
    slot_t *s = &slots[vp_int(argn)];

    if (!s->v) { fprintf(stderr, "empty slot\n"); exit(3); }
    return s;
}

/* {{{ build from text */

static const char *rd;
static void bad_val(void) { fprintf(stderr, "bad value near '%.20s'\n", rd); exit(3); }
static void eat(char c) { if (*rd++ != c) { rd--; bad_val(); } }

static void rd_struct(mem_pool_t *mp, const iop_struct_t *st, void *v);
static void *rd_class(mem_pool_t *mp);

static int rd_hex(uint8_t *buf, int max)
{
    int n = 0;

    eat('x');
    while (isxdigit((uint8_t)rd[0])) {
        unsigned x;

        if (n >= max) bad_val();
        sscanf(rd, "%2x", &x);
        buf[n++] = x;
        rd += 2;
    }
    return n;
}

static void rd_union(mem_pool_t *mp, const iop_struct_t *st, void *v);

static int tsize(const iop_field_t *f)
{
    switch (f->type) {
      case IOP_T_I8: case IOP_T_U8: case IOP_T_BOOL: return 1;
      case IOP_T_I16: case IOP_T_U16: return 2;
      case IOP_T_I32: case IOP_T_U32: case IOP_T_ENUM: return 4;
      default: return 8;
    }
}

/* reads one value at v (not the pointer of references, classes...) */
static void rd_val(mem_pool_t *mp, const iop_field_t *f, void *v)
{
    static uint8_t buf[1 << 20];

    switch (f->type) {
      case IOP_T_STRUCT:
        if (iop_field_is_class(f)) {
            *(void **)v = rd_class(mp);
        } else {
            eat('[');
            rd_struct(mp, f->u1.st_desc, v);
            eat(']');
        }
        break;
      case IOP_T_UNION:
        rd_union(mp, f->u1.st_desc, v);
        break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        int n = rd_hex(buf, sizeof(buf));
        char *d = mp_new_raw(mp, char, n + 1);

        memcpy(d, buf, n);
        d[n] = 0;
        *(lstr_t *)v = LSTR_INIT_V(d, n);
      } break;
      case IOP_T_VOID:
        if (rd_hex(buf, 8)) bad_val();
        break;
      case IOP_T_BOOL:
        if (rd_hex(buf, 8) != 8) bad_val();
        *(bool *)v = buf[0];
        break;
      default:
        if (rd_hex(buf, 8) != 8) bad_val();
        memcpy(v, buf, tsize(f));
        break;
    }
}

static void rd_union(mem_pool_t *mp, const iop_struct_t *st, void *v)
{
    int k;
    const iop_field_t *f;

    eat('(');
    k = strtol(rd, (char **)&rd, 10);
    if (k < 1 || k > st->fields_len) bad_val();
    f = &st->fields[k - 1];
    iop_union_set_tag(st, f->tag, v);
    v = (char *)v + f->data_offs;
    if (iop_field_is_reference(f)) {
        v = *(void **)v = mp_imalloc(mp, MAX(1, f->u1.st_desc->size), 8, 0);
    }
    rd_val(mp, f, v);
    eat(')');
}

static void opt_set(const iop_field_t *f, void *v)
{
    switch (tsize(f)) {
      case 1: ((opt_u8_t *)v)->has_field = true; break;
      case 2: ((opt_u16_t *)v)->has_field = true; break;
      case 4: ((opt_u32_t *)v)->has_field = true; break;
      case 8: ((opt_u64_t *)v)->has_field = true; break;
      default: bad_val();
    }
}

static void rd_struct(mem_pool_t *mp, const iop_struct_t *st, void *v)
{
    if (st->is_union) {
        rd_union(mp, st, v);
        return;
    }
    for (int i = 0; i < st->fields_len; i++) {
        const iop_field_t *f = &st->fields[i];
        void *p = (char *)v + f->data_offs;

        eat('[');
        switch (f->repeat) {
          case IOP_R_REPEATED: {
            const char *save = rd;
            int n = 0, depth = 0;
            lstr_t *a = p;
            char *tab;

            /* count the elements */
            for (const char *q = rd; ; q++) {
                if (*q == '[' || *q == '(' || *q == '{') { if (!depth++) n++; }
                else if (*q == ']' || *q == ')' || *q == '}') { if (!depth--) break; }
                else if (*q == 'x' && !depth) n++;
                else if (!*q) bad_val();
            }
            rd = save;
            tab = n ? mp_imalloc(mp, n * f->size, 8, 0) : NULL;
            for (int j = 0; j < n; j++) {
                rd_val(mp, f, tab + j * f->size);
            }
            a->data = tab;
            a->len = n;
          } break;
          case IOP_R_OPTIONAL:
            if (*rd == ']') {
                break;
            }
            if (f->type == IOP_T_VOID) {
                eat('x');
                *(bool *)p = true;
            } else
            if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                if (iop_field_is_class(f)) {
                    *(void **)p = rd_class(mp);
                } else {
                    rd_val(mp, f, *(void **)p = mp_imalloc(mp, MAX(1, f->u1.st_desc->size), 8, 0));
                }
            } else {
                rd_val(mp, f, p);
                if (f->type != IOP_T_STRING && f->type != IOP_T_DATA && f->type != IOP_T_XML) {
                    opt_set(f, p);
                }
            }
            break;
          default:
            if (iop_field_is_reference(f)) {
                p = *(void **)p = mp_imalloc(mp, f->u1.st_desc->size, 8, 0);
            }
            rd_val(mp, f, p);
            break;
        }
        eat(']');
    }
}

static void *rd_class(mem_pool_t *mp)
{
    char name[64];
    const char *q;
    const iop_struct_t *st;
    void *v;

    eat('{');
    q = strchr(rd, '!');
    if (!q || q - rd > 60) bad_val();
    memcpy(name, rd, q - rd);
    name[q - rd] = 0;
    rd = q + 1;
    st = st_of(name);
    v = mp_imalloc(mp, st->size, 8, 0);
    *(const iop_struct_t **)v = st;
    do {
        eat('[');
        rd_struct(mp, st, v);
        eat(']');
    } while ((st = st->class_attrs->parent));
    eat('}');
    return v;
}

/* }}} */
/* {{{ dump as nested arrays */

static bool sep;
static void w(const char *s) { fputs(s, vp_out); }
static void w_open(void) { if (sep) w(","); w("["); sep = false; }
static void w_close(void) { w("]"); sep = true; }
static void w_int(int i) { if (sep) w(","); fprintf(vp_out, "%d", i); sep = true; }
static void w_u64(uint64_t u)
{
    w_open();
    for (int i = 0; i < 8; i++) w_int((u >> (8 * i)) & 255);
    w_close();
}
static void wr_struct(const iop_struct_t *st, const void *v);
static void wr_class(const void *v)
{
    const iop_struct_t *st = *(const iop_struct_t **)v;

    w_open();
    w_int(st->class_attrs->class_id);
    do {
        wr_struct(st, v);
    } while ((st = st->class_attrs->parent));
    w_close();
}
static void wr_val(const iop_field_t *f, const void *v)
{
    switch (f->type) {
      case IOP_T_STRUCT:
      case IOP_T_UNION:
        if (iop_field_is_class(f)) {
            wr_class(*(void **)v);
        } else {
            wr_struct(f->u1.st_desc, v);
        }
        break;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: {
        const lstr_t *s = v;

        w_open();
        for (int i = 0; i < s->len; i++) w_int((uint8_t)s->s[i]);
        w_close();
      } break;
      case IOP_T_VOID: w_open(); w_close(); break;
      case IOP_T_I8:  w_u64(*(int8_t *)v); break;
      case IOP_T_U8:  w_u64(*(uint8_t *)v); break;
      case IOP_T_I16: w_u64(*(int16_t *)v); break;
      case IOP_T_U16: w_u64(*(uint16_t *)v); break;
      case IOP_T_ENUM:
      case IOP_T_I32: w_u64(*(int32_t *)v); break;
      case IOP_T_U32: w_u64(*(uint32_t *)v); break;
      case IOP_T_BOOL: w_u64(*(uint8_t *)v); break;
      default: w_u64(*(uint64_t *)v); break;
    }
}
static bool is_set(const iop_field_t *f, const void *v)
{
    switch (f->type) {
      case IOP_T_STRUCT: case IOP_T_UNION: return *(void **)v != NULL;
      case IOP_T_STRING: case IOP_T_DATA: case IOP_T_XML: return ((lstr_t *)v)->s != NULL;
      case IOP_T_VOID: return *(bool *)v;
      default:
        switch (tsize(f)) {
          case 1: return ((opt_u8_t *)v)->has_field;
          case 2: return ((opt_u16_t *)v)->has_field;
          case 4: return ((opt_u32_t *)v)->has_field;
          default: return ((opt_u64_t *)v)->has_field;
        }
    }
}
static void wr_struct(const iop_struct_t *st, const void *v)
{
    if (st->is_union) {
        int tag = iop_union_get_tag(st, v);

        for (int i = 0; i < st->fields_len; i++) {
            const iop_field_t *f = &st->fields[i];
            const void *p = (char *)v + f->data_offs;

            if (f->tag == tag) {
                w_open();
                w_int(i + 1);
                wr_val(f, iop_field_is_reference(f) ? *(void **)p : p);
                w_close();
                return;
            }
        }
        w_open(); w_int(-tag - 1); w_close();
        return;
    }
    w_open();
    for (int i = 0; i < st->fields_len; i++) {
        const iop_field_t *f = &st->fields[i];
        const void *p = (char *)v + f->data_offs;

        w_open();
        switch (f->repeat) {
          case IOP_R_REPEATED: {
            const lstr_t *a = p;

            for (int j = 0; j < a->len; j++) {
                wr_val(f, a->s + j * f->size);
            }
          } break;
          case IOP_R_OPTIONAL:
            if (is_set(f, p)) {
                if (iop_field_is_class(f)) {
                    wr_class(*(void **)p);
                } else
                if (f->type == IOP_T_STRUCT || f->type == IOP_T_UNION) {
                    wr_val(f, *(void **)p);
                } else {
                    wr_val(f, p);
                }
            }
            break;
          default:
            wr_val(f, iop_field_is_reference(f) ? *(void **)p : p);
            break;
        }
        w_close();
    }
    w_close();
}
static void dump(const char *k, const slot_t *s)
{
    fprintf(vp_out, ",\"%s\":", k);
    sep = false;
    if (!s->v) {
        w("[]");
    } else
    if (iop_struct_is_class(s->st)) {
        wr_class(s->v);
    } else {
        wr_struct(s->st, s->v);
    }
}
static void w_type(const iop_struct_t *st) { vp_s("t", st->fullname.s + 4); }

/* }}} */

static void wire_set(int i, const void *b, size_t n)
{
    free(wires[i].b);
    wires[i].b = malloc(n ?: 1);
    memcpy(wires[i].b, b, n);
    wires[i].n = n;
}

/* {{{ visits, hashes, orders */

static void w_bytes(lstr_t s)
{
    w_open();
    for (int i = 0; i < s.len; i++) w_int((uint8_t)s.s[i]);
    w_close();
}

static struct {
    int n, stop, code;
    uint64_t skip;
} vis;

/* one call: its path and the type it is told about */
static int visit(const iop_struct_t *st, const iop_field_t *f, const iop_field_stack_t *stk)
{
    t_scope;

    vis.n++;
    w_open();
    w_bytes(stk ? t_iop_field_stack_to_lstr(stk) : LSTR("?"));
    w_bytes(LSTR(st->fullname.s + 4));
    w_bytes(f ? f->name : LSTR("?"));
    w_close();
    if (vis.n == vis.stop) {
        return -vis.code;
    }
    return vis.n <= 64 && (vis.skip >> (vis.n - 1)) & 1 ? IOP_FIELD_SKIP : 0;
}

static int do_visit(const char *mode, slot_t *s)
{
#define M(x)  if (!strcmp(mode, x))
    /* a class may be visited without telling its type */
    const iop_struct_t *st = vp_int(6) && iop_struct_is_class(s->st) ? NULL : s->st;

    M("field") return iop_for_each_field(st, s->v,
        ^int (const iop_struct_t *d, const iop_field_t *f, void *p, const iop_field_stack_t *k) { return visit(d, f, k); });
    M("fieldc") return iop_for_each_field_const(st, s->v,
        ^int (const iop_struct_t *d, const iop_field_t *f, const void *p, const iop_field_stack_t *k) { return visit(d, f, k); });
    M("fieldf") return iop_for_each_field_fast(st, s->v,
        ^int (const iop_struct_t *d, const iop_field_t *f, void *p) { return visit(d, f, NULL); });
    M("fieldcf") return iop_for_each_field_const_fast(st, s->v,
        ^int (const iop_struct_t *d, const iop_field_t *f, const void *p) { return visit(d, f, NULL); });
    M("st") return iop_for_each_st(st, s->v,
        ^int (const iop_struct_t *d, void *p, const iop_field_stack_t *k) { return visit(d, NULL, k); });
    M("stc") return iop_for_each_st_const(st, s->v,
        ^int (const iop_struct_t *d, const void *p, const iop_field_stack_t *k) { return visit(d, NULL, k); });
    M("stf") return iop_for_each_st_fast(st, s->v,
        ^int (const iop_struct_t *d, void *p) { return visit(d, NULL, NULL); });
    M("stcf") return iop_for_each_st_const_fast(st, s->v,
        ^int (const iop_struct_t *d, const void *p) { return visit(d, NULL, NULL); });
    M("obj") return iop_for_each_obj(st, &s->v,
        ^int (const iop_struct_t *d, void **p, const iop_field_stack_t *k) { return visit(d, NULL, k); });
    M("objf") return iop_for_each_obj_fast(st, &s->v,
        ^int (const iop_struct_t *d, void **p) { return visit(d, NULL, NULL); });
    vp_bad();
    return 0;
#undef M
}

static void on_hash(void *ctx, const void *in, ssize_t len) { sb_add(ctx, in, len); }

static int sg(int i) { return i < 0 ? -1 : i > 0; }

/* }}} */

static void run_op(void)
{
    t_scope;

    if (vp_is("set")) {
        slot_t *s = slot_new(vp_int(1));

        s->st = st_of(vp_arg(2));
        rd = vp_arg(3);
        if (iop_struct_is_class(s->st)) {
            s->v = rd_class(s->mp);
        } else {
            s->v = mp_imalloc(s->mp, MAX(1, s->st->size), 8, 0);
            if (!s->st->is_union) eat('[');
            rd_struct(s->mp, s->st, s->v);
            if (!s->st->is_union) eat(']');
        }
        if (*rd) bad_val();
        vp_ev("set"); vp_i("s", vp_int(1)); w_type(s->st); dump("v", s); vp_end();
    } else
    if (vp_is("get")) {
        slot_t *s = slot(1);

        vp_ev("get"); vp_i("s", vp_int(1)); dump("v", s); vp_end();
    } else
    if (vp_is("pack")) {
        slot_t *s = slot(1);
        unsigned flags = vp_int(3);
        int i = vp_int(2);
        qv_t(i32) szs;
        int len;
        uint8_t *buf = NULL;

        qv_init(&szs);
        len = iop_bpack_size_flags(s->st, s->v, flags, &szs);
        if (len >= 0) {
            buf = malloc(len ?: 1);
            iop_bpack(buf, s->st, s->v, szs.tab);
            wire_set(i, buf, len);
        }
        qv_wipe(&szs);
        vp_ev("pack"); vp_i("s", vp_int(1)); vp_i("fl", flags & 7); vp_b("ok", len >= 0);
        vp_bytes("b", buf, MAX(0, len)); vp_end();
        free(buf);
    } else
    if (vp_is("raw")) {
        static uint8_t buf[1 << 20];

        wire_set(vp_int(1), buf, vp_unhex(vp_arg(2), buf, sizeof(buf)));
    } else
    if (vp_is("mut")) {
        /* mut W KIND POS VAL: positions are taken modulo the length */
        int i = vp_int(1);
        size_t n = wires[i].n, pos = n ? (size_t)vp_int(3) % n : 0;
        uint8_t *b = malloc(n + 1);

        memcpy(b, wires[i].b, n);
        if (!strcmp(vp_arg(2), "set") && n) {
            b[pos] = vp_int(4);
        } else
        if (!strcmp(vp_arg(2), "add") && n) {
            b[pos] += vp_int(4);
        } else
        if (!strcmp(vp_arg(2), "cut")) {
            n = pos;
        } else
        if (!strcmp(vp_arg(2), "del") && n) {
            memmove(b + pos, b + pos + 1, n - pos - 1);
            n--;
        } else
        if (!strcmp(vp_arg(2), "ins")) {
            memmove(b + pos + 1, b + pos, n - pos);
            b[pos] = vp_int(4);
            n++;
        }
        wire_set(i, b, n);
        free(b);
    } else
    if (vp_is("unpack")) {
        int i = vp_int(3);
        unsigned flags = vp_int(4);
        const iop_struct_t *st = st_of(vp_arg(2));
        slot_t *s = slot_new(vp_int(1));
        size_t n = wires[i].n;
        uint8_t *in;
        int res;

        /* the input lives as long as the slot, its bytes are exact */
        s->heap = in = malloc(n ?: 1);
        memcpy(in, wires[i].b, n);
        s->st = st;
        res = iop_bunpack_ptr_flags(s->mp, st, &s->v, ps_init(in, n), flags);
        if (res >= 0 && (flags & IOP_UNPACK_COPY_STRINGS)) {
            memset(in, 0xa5, n);
            s->heap = NULL;
            free(in);
        }
        if (res < 0) {
            s->v = NULL;
        }
        vp_ev("unpack"); vp_i("s", vp_int(1)); w_type(st); vp_i("fl", flags & 3);
        vp_bytes("b", wires[i].b, n); vp_b("ok", res >= 0); dump("v", s); vp_end();
        if (res < 0) {
            slot_drop(s);
        }
    } else
    if (vp_is("multi")) {
        /* unions laid one after the other in a stream */
        const iop_struct_t *st = st_of(vp_arg(1));
        int i = vp_int(2);
        uint8_t *in = malloc(wires[i].n ?: 1);
        pstream_t ps = ps_init(in, wires[i].n);

        memcpy(in, wires[i].b, wires[i].n);
        while (!ps_done(&ps)) {
            slot_t s = { .st = st, .v = t_new(byte, st->size) };
            pstream_t sk = ps;
            ssize_t flen = iop_get_field_len(ps);
            const uint8_t *from = ps.b;
            int r2 = iop_bskip(st, &sk);
            int res = iop_bunpack_multi_flags(t_pool(), st, s.v, &ps, 0);

            vp_ev("multi"); w_type(st); vp_bytes("b", from, (uint8_t *)ps.b_end - from);
            vp_b("ok", res >= 0); vp_i("used", ps.b - from); vp_b("sok", r2 >= 0); vp_i("sused", sk.b - from);
            vp_i("flen", flen);
            if (res < 0) s.v = NULL;
            dump("v", &s); vp_end();
            if (res < 0) break;
        }
        free(in);
    } else
    if (vp_is("cat")) {
        int a = vp_int(1), b = vp_int(2);
        size_t n = wires[a].n + wires[b].n;
        uint8_t *p = malloc(n + 1);

        memcpy(p, wires[a].b, wires[a].n);
        memcpy(p + wires[a].n, wires[b].b, wires[b].n);
        wire_set(a, p, n);
        free(p);
    } else
    if (vp_is("thr")) {
        iop_bpack_set_threaded_threshold(vp_int(1));
    } else
    if (vp_is("visit")) {
        /* visit S MODE SKIPS STOP CODE ANON */
        slot_t *s = slot(1);
        const char *mode = vp_arg(2);
        int res;

        vis.n = 0; vis.skip = strtoull(vp_arg(3), NULL, 16); vis.stop = vp_int(4); vis.code = vp_int(5);
        vp_ev("visit"); vp_i("s", vp_int(1)); vp_s("m", mode); vp_i("stop", vis.stop); vp_i("code", vis.code);
        fprintf(vp_out, ",\"skip\":[");
        sep = false;
        for (int i = 0; i < 64; i++) if ((vis.skip >> i) & 1) w_int(i + 1);
        fprintf(vp_out, "],\"o\":[");
        sep = false;
        res = do_visit(mode, s);
        w("]"); vp_i("res", res); vp_end();
    } else
    if (vp_is("hash")) {
        slot_t *s = slot(1);
        unsigned fl = vp_int(2);
        uint8_t h1[32], h2[32], h3[4], h4[4], k1[32], k2[32];
        lstr_t key = LSTR("key");
        SB_1k(sb);

        iop_hash(s->st, s->v, &on_hash, &sb, fl);
        iop_hash_sha256(s->st, s->v, h1, fl);
        sha2(sb.data, sb.len, h2, false);
        iop_hash_jenkins(s->st, s->v, h3, fl);
        { jenkins_ctx c; jenkins_starts(&c); jenkins_update(&c, sb.data, sb.len); jenkins_finish(&c, h4); }
        iop_hmac_sha256(s->st, s->v, key, k1, fl);
        sha2_hmac(key.s, key.len, sb.data, sb.len, k2, 0);
        vp_ev("hash"); vp_i("s", vp_int(1)); vp_i("fl", fl); vp_bytes("b", sb.data, sb.len);
        vp_b("same", !memcmp(h1, h2, 32) && !memcmp(h3, h4, 4) && !memcmp(k1, k2, 32)); vp_end();
    } else
    if (vp_is("eq")) {
        slot_t *a = slot(1), *b = slot(2);
        SB_1k(sb);
        bool eq = iop_equals_desc(a->st, a->v, b->v);
        int d = iop_first_diff_desc(a->st, a->v, b->v, &sb);

        vp_ev("eq"); vp_i("a", vp_int(1)); vp_i("b", vp_int(2)); vp_b("eq", eq); vp_b("diff", d >= 0);
        vp_b("msg", sb.len > 0); vp_end();
    } else
    if (vp_is("cmp")) {
        slot_t *a = slot(1), *b = slot(2), *c = slot(3);

        vp_ev("cmp"); vp_i("a", vp_int(1)); vp_i("b", vp_int(2)); vp_i("c", vp_int(3));
        vp_i("ab", sg(iop_cmp_desc(a->st, a->v, b->v))); vp_i("ba", sg(iop_cmp_desc(a->st, b->v, a->v)));
        vp_i("bc", sg(iop_cmp_desc(a->st, b->v, c->v))); vp_i("ac", sg(iop_cmp_desc(a->st, a->v, c->v)));
        vp_end();
    } else
    if (vp_is("dup") || vp_is("copy")) {
        /* dup S D FLAGS LIBC; copy S D FLAGS LIBC: over the former value of D, if any */
        slot_t *s = slot(1), o = *s;
        int di = vp_int(2);
        unsigned fl = vp_int(3);
        bool libc = vp_int(4);
        slot_t *d = &slots[di];
        size_t sz = 0;
        bool dup = vp_is("dup");
        void *old = NULL;

        if (d == s) vp_bad();
        if (dup || !d->v || !d->heap || d->st != o.st || d->mp || !libc) {
            d = slot_new(di);
            if (libc) { mem_stack_pop(d->mp); mem_stack_delete(&d->mp); d->mp = NULL; }
        } else {
            old = d->v;
            d->heap = NULL;
        }
        d->st = o.st;
        if (dup) {
            d->v = mp_iop_dup_desc_flags_sz(d->mp, o.st, o.v, fl, fl & 1 ? NULL : &sz);
        } else {
            d->v = old;
            mp_iop_copy_desc_flags_sz(d->mp, o.st, &d->v, o.v, fl, fl & 1 ? NULL : &sz);
        }
        if (libc) d->heap = d->v;
        vp_ev("dup"); vp_i("s", vp_int(1)); vp_i("d", di); dump("v", d); vp_end();
    } else
    if (vp_is("drop")) {
        slot_drop(&slots[vp_int(1)]);
    } else
    if (vp_is("sort")) {
        /* sort MODE PATH FLAGS slots...: MODE x, p (arbitrary orders), f (by a field) */
        const char *mode = vp_arg(1);
        int n = 0, res = 0;
        const iop_struct_t *st = NULL;
        void **pv = t_new(void *, 64);
        bool cls, ptr;
        uint8_t *arr;
        SB_1k(err);

        for (int i = 4; i < vp_argc; i++) { slot_t *s = slot(i); st = s->st; pv[n++] = s->v; }
        if (!n) vp_bad();
        cls = iop_struct_is_class(st);
        ptr = cls || *mode == 'p';
        arr = t_new(uint8_t, n * st->size + 8);
        if (!ptr) for (int i = 0; i < n; i++) memcpy(arr + i * st->size, pv[i], st->size);
        if (*mode == 'f') res = iop_sort_desc(st, ptr ? (void *)pv : arr, n, LSTR(vp_arg(2)), vp_int(3), &err);
        else if (*mode == 'x') iop_xsort_desc(st, ptr ? (void *)pv : arr, n);
        else iop_xpsort_desc(st, (const void **)pv, n);
        vp_ev("sort"); vp_s("m", mode); w_type(st); vp_i("fl", vp_int(3)); vp_i("f", -1); vp_b("ok", res >= 0);
        for (int i = 0; i < st->fields_len; i++) if (lstr_equal(st->fields[i].name, LSTR(vp_arg(2)))) fprintf(vp_out, ",\"k\":%d", i + 1);
        fprintf(vp_out, ",\"in\":["); sep = false;
        for (int i = 4; i < 4 + n; i++) w_int(vp_int(i));
        fprintf(vp_out, "],\"o\":["); sep = false;
        for (int i = 0; i < n; i++) {
            const void *v = ptr ? pv[i] : arr + i * st->size;

            if (cls) wr_class(v); else wr_struct(st, v);
        }
        fprintf(vp_out, "],\"c\":["); sep = false;
        for (int i = 0; i + 1 < n; i++) {
            w_int(sg(iop_cmp_desc(st, ptr ? pv[i] : arr + i * st->size, ptr ? pv[i + 1] : arr + (i + 1) * st->size)));
        }
        w("]"); vp_end();
    } else
    if (vp_is("filter")) {
        /* filter FIELD INVERT NVAL slots of the values... slots... */
        int nv = vp_int(3), n = 0, n0;
        void **vals = t_new(void *, nv + 1), **pv = t_new(void *, 64);
        const iop_struct_t *st = slot(4)->st;
        const iop_field_t *f = NULL;
        bool cls = iop_struct_is_class(st);
        uint8_t *arr;
        int res;
        SB_1k(err);

        for (int i = 0; i < st->fields_len; i++) if (lstr_equal(st->fields[i].name, LSTR(vp_arg(1)))) f = &st->fields[i];
        if (!f) vp_bad();
        for (int i = 0; i < nv; i++) vals[i] = (char *)slot(4 + i)->v + f->data_offs;
        for (int i = 4 + nv; i < vp_argc; i++) pv[n++] = slot(i)->v;
        arr = t_new(uint8_t, n * st->size + 8);
        for (int i = 0; !cls && i < n; i++) memcpy(arr + i * st->size, pv[i], st->size);
        n0 = n;
        res = iop_filter(st, cls ? (void *)pv : arr, &n, LSTR(vp_arg(1)), vals, nv, vp_int(2) ? IOP_FILTER_INVERT_MATCH : 0, &err);
        vp_ev("filter"); vp_i("k", f - st->fields + 1); vp_b("inv", vp_int(2)); vp_b("ok", res >= 0);
        fprintf(vp_out, ",\"vals\":["); sep = false;
        for (int i = 0; i < nv; i++) w_int(vp_int(4 + i));
        fprintf(vp_out, "],\"in\":["); sep = false;
        for (int i = 0; i < n0; i++) w_int(vp_int(4 + nv + i));
        fprintf(vp_out, "],\"o\":["); sep = false;
        for (int i = 0; i < n; i++) {
            if (cls) wr_class(pv[i]); else wr_struct(st, arr + i * st->size);
        }
        w("]"); vp_end();
    } else
    if (vp_is("xpack")) {
        /* xpack SLOT FLAGS READ-FLAGS: written, then read back in a root element */
        slot_t *s = slot(1), s2 = { .st = s->st };
        unsigned fl = vp_int(2), ufl = vp_int(3);
        xml_reader_t xr = NULL;
        char *doc;
        int res = -1;
        SB_1k(sb);
        SB_1k(all);

        if ((fl & 3) == fl && vp_int(4)) {
            iop_xpack(&sb, s->st, s->v, fl & 1, fl & 2);
        } else {
            iop_xpack_flags(&sb, s->st, s->v, fl);
        }
        sb_adds(&all, "<root xmlns:xsi=\"http://www.w3.org/2001/XMLSchema-instance\" xmlns:xsd=\"http://www.w3.org/2001/XMLSchema\" xmlns:n=\"http://x\"");
        if (iop_struct_is_class(s->st)) {
            sb_addf(&all, " xsi:type=\"n:%*pM\"", LSTR_FMT_ARG((*(const iop_struct_t **)s->v)->fullname));
        }
        sb_addc(&all, '>');
        sb_addsb(&all, &sb);
        sb_adds(&all, "</root>");
        doc = malloc(all.len);
        memcpy(doc, all.data, all.len);
        if (xmlr_setup(&xr, doc, all.len) >= 0) {
            res = t_iop_xunpack_ptr_flags(xr, s->st, &s2.v, ufl);
        }
        if (res < 0) s2.v = NULL;
        vp_ev("xpack"); vp_i("s", vp_int(1)); vp_i("fl", fl); vp_i("ufl", ufl); vp_bytes("b", sb.data, sb.len);
        vp_b("ok", res >= 0); dump("v", &s2); vp_end();
        xmlr_delete(&xr);
        free(doc);
    } else
    if (vp_is("xunpack")) {
        /* xunpack SLOT TYPE FLAGS PARTS TEXT TREE */
        const iop_struct_t *st = st_of(vp_arg(2));
        slot_t *s = slot_new(vp_int(1));
        unsigned fl = vp_int(3);
        xml_reader_t xr = NULL;
        static uint8_t buf[1 << 20];
        int n = vp_unhex(vp_arg(5), buf, sizeof(buf));
        uint8_t *doc = malloc(n);
        qm_t(part) parts;
        lstr_t k1 = LSTR("12"), k2 = LSTR("x@y");
        int res;

        memcpy(doc, buf, n);
        qm_init(part, &parts);
        qm_add(part, &parts, &k1, LSTR("part 1"));
        qm_add(part, &parts, &k2, LSTR_INIT_V("\0\377<", 3));
        s->st = st;
        if (xmlr_setup(&xr, doc, n) < 0) {
            fprintf(stderr, "not XML: %.*s\n", n, (char *)doc);
            exit(3);
        }
        if (vp_int(4)) {
            res = iop_xunpack_ptr_parts(xr, s->mp, st, &s->v, fl, &parts);
        } else
        if (!iop_struct_is_class(st) && fl % 3) {
            s->v = mp_imalloc(s->mp, MAX(1, st->size), 8, 0);
            res = iop_xunpack_flags(xr, s->mp, st, s->v, fl);
        } else {
            res = iop_xunpack_ptr_flags(xr, s->mp, st, &s->v, fl);
        }
        xmlr_delete(&xr);
        memset(doc, 0xa5, n);
        free(doc);
        if (res < 0) s->v = NULL;
        vp_ev("xunpack"); vp_i("s", vp_int(1)); w_type(st); vp_i("fl", fl); vp_b("hp", vp_int(4));
        fprintf(vp_out, ",\"x\":%s", vp_arg(6));
        vp_b("ok", res >= 0); dump("v", s); vp_end();
        qm_wipe(part, &parts);
        if (res < 0) slot_drop(s);
    } else
    if (vp_is("jrt")) {
        /* jrt SLOT FLAGS: through JSON */
        slot_t *s = slot(1), s2 = { .st = s->st };
        unsigned fl = vp_int(2);
        pstream_t ps;
        int res;
        SB_1k(sb);
        SB_1k(err);

        res = iop_sb_jpack(&sb, s->st, s->v, fl);
        if (res >= 0) {
            char *doc = malloc(sb.len ?: 1);

            memcpy(doc, sb.data, sb.len);
            ps = ps_init(doc, sb.len);
            res = t_iop_junpack_ptr_ps(&ps, s->st, &s2.v, 0, &err);
            free(doc);
        }
        if (res < 0) s2.v = NULL;
        vp_ev("rt"); vp_i("s", vp_int(1)); vp_b("np", fl & IOP_JPACK_SKIP_PRIVATE); vp_b("ok", res >= 0); dump("v", &s2);
        if (getenv("VP_TEXT")) vp_sn("text", sb.data, sb.len);
        vp_end();
    } else
    if (vp_is("yrt")) {
        /* yrt SLOT FLAGS: through YAML */
        slot_t *s = slot(1), s2 = { .st = s->st };
        unsigned fl = vp_int(2);
        pstream_t ps;
        int res;
        SB_1k(sb);
        SB_1k(err);
        char *doc;

        if (fl) {
            t_iop_sb_ypack_with_flags(&sb, s->st, s->v, NULL, fl);
        } else {
            t_iop_sb_ypack(&sb, s->st, s->v, NULL);
        }
        doc = malloc(sb.len ?: 1);
        memcpy(doc, sb.data, sb.len);
        ps = ps_init(doc, sb.len);
        res = t_iop_yunpack_ptr_ps(&ps, s->st, &s2.v, 0, NULL, &err);
        free(doc);
        if (res < 0) s2.v = NULL;
        vp_ev("rt"); vp_i("s", vp_int(1)); vp_b("np", fl & IOP_JPACK_SKIP_PRIVATE); vp_b("ok", res >= 0); dump("v", &s2);
        if (getenv("VP_TEXT")) vp_sn("text", sb.data, sb.len);
        vp_end();
    } else
    if (vp_is("check")) {
        slot_t *s = slot(1);
        int res = iop_check_constraints_desc(s->st, s->v);

        vp_ev("check"); vp_i("s", vp_int(1)); vp_b("ok", res >= 0); vp_end();
    } else {
        vp_bad();
    }
}

int main(void)
{
    IOP_REGISTER_PACKAGES(&vpt__pkg);
    if (getenv("VP_THR")) {
        MODULE_REQUIRE(thr);
    }
    vp_init();
    while (vp_next()) {
        run_op();
    }
    vp_done();
    for (int i = 0; i < NSLOT; i++) {
        slot_drop(&slots[i]);
        free(wires[i].b);
    }
    if (getenv("VP_THR")) {
        MODULE_RELEASE(thr);
    }
    return 0;
}
