/* Compressed (word aligned hybrid) bitmaps. */
#include <lib-common/core.h>
#include <lib-common/bit-wah.h>
#include "vp.h"

#define NM 6
static wah_t *M[NM];
static bool ro[NM];
static uint64_t bucket;

/* ones as toggle positions, from increasing keys */
typedef struct { int64_t last; } tg_t;
static void tg_start(tg_t *t, const char *k) { vp_arr(k); t->last = -1; }
static void tg_run(tg_t *t, uint64_t s, uint64_t n)
{
    if (!n) return;
    if (t->last != (int64_t)s) { if (t->last >= 0) vp_ai(t->last); vp_ai(s); }
    t->last = s + n;
}
static void tg_end(tg_t *t) { if (t->last >= 0) vp_ai(t->last); vp_arr_end(); }

/* the content, decoded from the documented storage format */
static void content(const wah_t *m)
{
    tg_t t;
    uint64_t pos = 0;
    bool fmt = true;
    tg_start(&t, "c");
    tab_for_each_ptr(b, &m->_buckets) {
        int i = 0;
        while (i < b->len) {
            wah_word_t h = b->tab[i], n;
            if (i + 2 > b->len) { fmt = false; break; }
            n = b->tab[i + 1];
            i += 2;
            if (h.head.bit) tg_run(&t, pos, (uint64_t)h.head.words * 32);
            pos += (uint64_t)h.head.words * 32;
            if (i + (int)n.count > b->len) { fmt = false; break; }
            for (uint32_t w = 0; w < n.count; w++, i++, pos += 32) {
                for (int k = 0; k < 32; k++) if (b->tab[i].literal & (1u << k)) tg_run(&t, pos + k, 1);
            }
        }
    }
    for (unsigned k = 0; k < m->len % 32; k++) if (m->_pending & (1u << k)) tg_run(&t, pos + k, 1);
    tg_end(&t);
    if (pos + m->len % 32 != m->len) fmt = false;
    vp_b("fmt", fmt);
}
static void after(int i) { vp_i("len", M[i]->len); vp_i("act", M[i]->active); vp_end(); }

int main(void)
{
    vp_init();
    while (vp_next()) {
        if (vp_is("reset")) {
            bucket = vp_u64(1);
            for (int i = 0; i < NM; i++) wah_pool_release(&M[i]);
            if (bucket) wah_set_bits_in_bucket(bucket); else wah_reset_bits_in_bucket();
            for (int i = 0; i < NM; i++) { M[i] = wah_pool_acquire(); ro[i] = false; }
            vp_ev("reset"); vp_end();
            continue;
        }
        if (vp_is("bucket")) {
            /* what is stored with one bucket size is read with another one */
            uint64_t nb = vp_u64(1);
            lstr_t s[NM];
            t_scope;
            for (int i = 0; i < NM; i++) {
                if (M[i]->len % 32) wah_pad32(M[i]);
                s[i] = t_wah_get_storage_lstr(M[i]);
                s[i] = lstr_dup(s[i]);
                wah_pool_release(&M[i]);
            }
            wah_set_bits_in_bucket(nb);
            vp_ev("bucket"); vp_arr("lens");
            for (int i = 0; i < NM; i++) {
                wah_t *n = wah_new_from_data(ps_initlstr(&s[i]));
                if (!n) { vp_ai(-1); M[i] = wah_new(); } else { vp_ai(n->len); M[i] = wah_dup(n); wah_delete(&n); }
                lstr_wipe(&s[i]);
                ro[i] = true;   /* loaded maps are documented as read-only: nothing is appended to them */
            }
            vp_arr_end(); vp_end();
            continue;
        }
        int i = (int)vp_int(1);
        if (ro[i] && (vp_is("add0") || vp_is("add1") || vp_is("at") || vp_is("add") || vp_is("pad"))) continue;
        if (vp_is("clear")) {
            ro[i] = false;
            wah_reset_map(M[i]); vp_ev("clear"); vp_i("i", i); after(i);
        } else if (vp_is("add0") || vp_is("add1")) {
            uint64_t n = vp_u64(2);
            if (vp_is("add0")) wah_add0s(M[i], n); else wah_add1s(M[i], n);
            vp_ev(vp_argv[0]); vp_i("i", i); vp_i("n", n); after(i);
        } else if (vp_is("at")) {
            uint64_t p = vp_u64(2);
            if (p < M[i]->len) continue;  /* not allowed */
            wah_add1_at(M[i], p);
            vp_ev("at"); vp_i("i", i); vp_i("p", p); after(i);
        } else if (vp_is("add")) {
            static byte raw[65536] __attribute__((aligned(64)));
            int mis = (int)vp_int(4);
            size_t nb = vp_unhex(vp_arg(2), raw + mis, sizeof(raw) - 64);
            uint64_t n = vp_u64(3);
            tg_t t;
            if (n > nb * 8) exit(3);
            /* exactly the bytes needed */
            byte *d = malloc(nb + mis + 1);
            memcpy(d + mis, raw + mis, nb);
            wah_add(M[i], d + mis, n);
            vp_ev("add"); vp_i("i", i); vp_i("n", n);
            tg_start(&t, "v");
            for (uint64_t k = 0; k < n; k++) if (raw[mis + k / 8] & (1 << (k % 8))) tg_run(&t, k, 1);
            tg_end(&t);
            after(i);
            free(d);
        } else if (vp_is("pad")) {
            wah_pad32(M[i]); vp_ev("pad"); vp_i("i", i); after(i);
        } else if (vp_is("and") || vp_is("andnot") || vp_is("notand") || vp_is("or")) {
            int j = (int)vp_int(2);
            if (i == j) continue;
            if (vp_is("and")) wah_and(M[i], M[j]);
            else if (vp_is("andnot")) wah_and_not(M[i], M[j]);
            else if (vp_is("notand")) wah_not_and(M[i], M[j]);
            else wah_or(M[i], M[j]);
            ro[i] = vp_is("or") && (ro[i] || ro[j]);
            vp_ev(vp_argv[0]); vp_i("i", i); vp_i("j", j); after(i);
        } else if (vp_is("not")) {
            wah_not(M[i]); vp_ev("not"); vp_i("i", i); after(i);
        } else if (vp_is("multior")) {
            const wah_t *src[NM]; int n = 0;
            bool self = false;
            for (int k = 2; k < vp_argc; k++) { int j = (int)vp_int(k); if (j == i) self = true; src[n++] = M[j]; }
            if (self) continue;
            ro[i] = false;
            for (int k = 2; k < vp_argc; k++) if (ro[vp_int(k)]) ro[i] = true;
            if (vp_argc % 2) {
                wah_t *d = wah_multi_or(src, n, NULL);
                wah_delete(&M[i]); M[i] = d;
            } else {
                wah_multi_or(src, n, M[i]);
            }
            vp_ev("multior"); vp_i("i", i); vp_arr("s");
            for (int k = 2; k < vp_argc; k++) vp_ai(vp_int(k));
            vp_arr_end(); after(i);
        } else if (vp_is("copy")) {
            int j = (int)vp_int(2), how = (int)vp_int(3);
            if (i == j) continue;
            ro[i] = ro[j];
            if (how == 0) wah_copy(M[i], M[j]);
            else if (how == 1) { wah_delete(&M[i]); M[i] = wah_dup(M[j]); }
            else { t_scope; wah_t *t = t_wah_dup(M[j]); wah_copy(M[i], t); }
            vp_ev("copy"); vp_i("i", i); vp_i("j", j); after(i);
        } else if (vp_is("store")) {
            t_scope;
            if (M[i]->len % 32) continue;
            lstr_t s = t_wah_get_storage_lstr(M[i]);
            wah_t *n = wah_new_from_data(ps_initlstr(&s));
            vp_ev("store"); vp_i("i", i); vp_b("ok", n != NULL); 
            if (n) { content(n); vp_i("len", n->len); vp_i("act", n->active); wah_delete(&n); }
            vp_end();
        } else if (vp_is("load")) {
            /* load id hex: arbitrary stored words */
            static byte raw[65536];
            size_t nb = vp_unhex(vp_arg(2), raw, sizeof(raw));
            byte *d = malloc(nb + 1);
            memcpy(d, raw, nb);
            wah_t *n = wah_new_from_data(ps_init(d, nb));
            vp_ev("load"); vp_i("i", i); vp_i("bytes", nb);
            /* what the words say, read as the format is documented */
            vp_arr("ch");
            const wah_word_t *w = (const wah_word_t *)raw;
            size_t nw = nb / 4, at = 0;
            uint64_t pos = 0;
            while (at + 2 <= nw) {
                vp_sep();
                fprintf(vp_out, "[%d,%d,%d]", w[at].head.bit, w[at].head.words, (int)MIN(w[at + 1].count, 1u << 30));
                if (w[at + 1].count > nw - at - 2) { at = nw + 1; break; }
                at += 2 + w[at + 1].count;
            }
            vp_arr_end();
            vp_i("rest", at <= nw ? (int)(nw - at) : -1);
            tg_t t;
            tg_start(&t, "v");
            for (at = 0; at + 2 <= nw;) {
                if (w[at].head.bit) tg_run(&t, pos, (uint64_t)w[at].head.words * 32);
                pos += (uint64_t)w[at].head.words * 32;
                if (w[at + 1].count > nw - at - 2) break;
                for (uint32_t k = 0; k < w[at + 1].count; k++, pos += 32)
                    for (int b = 0; b < 32; b++) if (w[at + 2 + k].literal & (1u << b)) tg_run(&t, pos + b, 1);
                at += 2 + w[at + 1].count;
            }
            tg_end(&t);
            vp_b("ok", n != NULL);
            if (n) {
                wah_delete(&M[i]); M[i] = wah_dup(n); ro[i] = true;
                wah_delete(&n);
                content(M[i]);
            } else { vp_arr("c"); vp_arr_end(); vp_b("fmt", true); }
            free(d);
            after(i);
        } else if (vp_is("dump")) {
            vp_ev("dump"); vp_i("i", i); content(M[i]); after(i);
        } else if (vp_is("get")) {
            uint64_t p = vp_u64(2);
            vp_ev("get"); vp_i("i", i); vp_i("p", p); vp_b("r", wah_get(M[i], p)); vp_end();
        } else if (vp_is("getall")) {
            tg_t t;
            vp_ev("enum"); vp_i("i", i); vp_i("b", 1);
            tg_start(&t, "v");
            for (uint64_t k = 0; k < M[i]->len; k++) if (wah_get(M[i], k)) tg_run(&t, k, 1);
            tg_end(&t); vp_b("asc", true); vp_end();
        } else if (vp_is("enum")) {
            int b = (int)vp_int(2);
            tg_t t; bool asc = true; int64_t prev = -1;
            vp_ev("enum"); vp_i("i", i); vp_i("b", b);
            tg_start(&t, "v");
            if (b) { wah_for_each_1(en, M[i]) { tg_run(&t, en.key, 1); if ((int64_t)en.key <= prev) asc = false; prev = en.key; } }
            else { wah_for_each_0(en, M[i]) { tg_run(&t, en.key, 1); if ((int64_t)en.key <= prev) asc = false; prev = en.key; } }
            tg_end(&t); vp_b("asc", asc); vp_end();
        } else if (vp_is("walk")) {
            /* walk i reverse steps...: -1 next, n >= 0 skips n ones */
            bool rev = vp_int(2);
            wah_bit_enum_t en = wah_bit_enum_start(M[i], rev);
            vp_ev("walk"); vp_i("i", i); vp_b("rev", rev); vp_arr("steps");
            for (int k = 3; k < vp_argc; k++) vp_ai(vp_int(k));
            vp_arr_end(); vp_arr("keys");
            vp_ai(en.word_en.state == WAH_ENUM_END ? -1 : (int64_t)en.key);
            for (int k = 3; k < vp_argc; k++) {
                int64_t s = vp_int(k);
                if (en.word_en.state != WAH_ENUM_END) { if (s < 0) wah_bit_enum_next(&en); else wah_bit_enum_skip1s(&en, s); }
                vp_ai(en.word_en.state == WAH_ENUM_END ? -1 : (int64_t)en.key);
            }
            vp_arr_end(); vp_end();
        } else vp_bad();
    }
    vp_done();
    return 0;
}
