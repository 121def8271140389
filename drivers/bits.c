/* Bit buffers and bit streams. */
#include <lib-common/core.h>
#include <lib-common/bit-buf.h>
#include <lib-common/bit-stream.h>
#include "vp.h"

static bb_t bb;
static bool be, bbinit;
#define NS 6
static struct { bit_stream_t bs; byte *mem; bool on; } S[NS];

static void bits(const char *k, uint64_t v, int n)
{
    vp_arr(k);
    for (int i = 0; i < n; i++) vp_ai(be ? (v >> (n - 1 - i)) & 1 : (v >> i) & 1);
    vp_arr_end();
}
static void bytes_as_bits(const char *k, const byte *p, size_t n)
{
    vp_arr(k);
    for (size_t i = 0; i < n * 8; i++) vp_ai(be ? (p[i / 8] >> (7 - i % 8)) & 1 : (p[i / 8] >> (i % 8)) & 1);
    vp_arr_end();
}
/* the content, read from memory without the library */
static void content(void)
{
    vp_arr("c");
    for (size_t i = 0; i < bb.len; i++) {
        int sh = be ? 7 - i % 8 : i % 8;
        vp_ai((bb.bytes[i / 8] >> sh) & 1);
    }
    vp_arr_end();
    /* the room after the content is kept zeroed */
    bool z = true;
    for (size_t i = bb.len; i < (size_t)bb.size * 64; i++) {
        int sh = be ? 7 - i % 8 : i % 8;
        if ((bb.bytes[i / 8] >> sh) & 1) z = false;
    }
    vp_b("zero", z);
}
static size_t frombits(const char *s, uint64_t *v)
{
    size_t n = strlen(s);
    if (!strcmp(s, "-")) n = 0;
    *v = 0;
    for (size_t i = 0; i < n; i++) if (s[i] == '1') *v |= 1ull << (be ? n - 1 - i : i);
    return n;
}
static void streams_off(void) { for (int i = 0; i < NS; i++) { p_clear(&S[i], 1); } }
static void stream(int id, const char *k)
{
    bit_stream_t b = S[id].bs;
    vp_arr(k);
    while (!bs_done(&b)) { vp_ai(be ? __bs_be_get_bit(&b) : __bs_get_bit(&b)); }
    vp_arr_end();
}

int main(void)
{
    vp_init();
    while (vp_next()) {
        if (vp_is("reset")) {
            streams_off();
            if (bbinit) bb_wipe(&bb);
            be = vp_int(1);
            if (vp_int(2)) {
                sb_t sb;
                byte junk[64];
                int n = (int)vp_int(3);
                for (int i = 0; i < 64; i++) junk[i] = i * 37 + 11;
                sb_init(&sb);
                sb_add(&sb, junk, n);
                bb_init_sb(&bb, &sb);
                bbinit = true;
                vp_ev("initsb"); bytes_as_bits("v", junk, n); vp_i("len", bb.len); vp_end();
            } else {
                bb_init(&bb);
                bbinit = true;
                vp_ev("initsb"); vp_arr("v"); vp_arr_end(); vp_i("len", bb.len); vp_end();
            }
        } else if (vp_is("bit")) {
            bool v = vp_int(1);
            if (be) bb_be_add_bit(&bb, v); else bb_add_bit(&bb, v);
            vp_ev("add"); bits("v", v, 1); vp_i("len", bb.len); vp_end();
        } else if (vp_is("bits")) {
            uint64_t v; size_t n = frombits(vp_arg(1), &v);
            if (be) bb_be_add_bits(&bb, v, n); else bb_add_bits(&bb, v, n);
            vp_ev("add"); bits("v", v, n); vp_i("len", bb.len); vp_end();
        } else if (vp_is("byte")) {
            uint8_t v = vp_int(1);
            if (be) bb_be_add_byte(&bb, v); else bb_add_byte(&bb, v);
            vp_ev("add"); bits("v", v, 8); vp_i("len", bb.len); vp_end();
        } else if (vp_is("bytes")) {
            byte raw[640]; int mis = vp_argc > 2 ? (int)vp_int(2) : 0;
            byte *b = (byte *)ROUND_UP((uintptr_t)raw, 8) + mis;
            size_t n = vp_unhex(vp_arg(1), b, 512);
            if (be) bb_be_add_bytes(&bb, b, n); else bb_add_bytes(&bb, b, n);
            vp_ev("add"); bytes_as_bits("v", b, n); vp_i("len", bb.len); vp_end();
        } else if (vp_is("zeros") || vp_is("ones")) {
            size_t n = vp_int(1);
            if (vp_is("zeros")) bb_add0s(&bb, n); else { if (be) exit(3); bb_add1s(&bb, n); }
            vp_ev("fill"); vp_i("b", vp_is("ones")); vp_i("n", n); vp_i("len", bb.len); vp_end();
        } else if (vp_is("align")) {
            bb_align(&bb);
            vp_ev("align"); vp_i("len", bb.len); vp_end();
        } else if (vp_is("clear")) {
            bb_reset(&bb);
            vp_ev("clear"); vp_i("len", bb.len); vp_end();
        } else if (vp_is("shl")) {
            size_t n = vp_int(1);
            if (be && n % 8) exit(3);
            bb_shift_left(&bb, n);
            vp_ev("shl"); vp_i("n", n); vp_i("len", bb.len); vp_end();
        } else if (vp_is("dump")) {
            vp_ev("dump"); content(); vp_end();
        } else if (vp_is("tosb")) {
            sb_t sb;
            sb_init(&sb);
            bb_transfer_to_sb(&bb, &sb);
            vp_ev("tosb"); bytes_as_bits("v", (const byte *)sb.data, sb.len); vp_i("len", bb.len); vp_end();
            sb_wipe(&sb);
        } else if (vp_is("open")) {
            /* open id start back: view [start, len - back) of a copy of the buffer */
            int id = (int)vp_int(1), mis = (int)vp_int(4);
            size_t st = vp_int(2), back = vp_int(3);
            if (st + back > bb.len) { st = 0; back = 0; }
            size_t nb = DIV_ROUND_UP(bb.len, 8);
            
            if (posix_memalign((void **)&S[id].mem, 64, nb + 64)) exit(3);
            memset(S[id].mem, 0xa5, nb + 64);
            memcpy(S[id].mem + 8 + mis, bb.bytes, nb);
            S[id].bs = bs_init(S[id].mem + 8 + mis, st, bb.len - st - back);
            S[id].on = true;
            vp_ev("open"); vp_i("id", id); vp_i("st", st); vp_i("back", back); vp_end();
        } else if (vp_is("sub")) {
            /* sub id n out: extracts n bits into another stream */
            int id = (int)vp_int(1), out = (int)vp_int(3);
            size_t n = vp_int(2);
            if (!S[id].on || id == out) continue;
            bit_stream_t o;
            int r = bs_get_bs(&S[id].bs, n, &o);
            if (r >= 0) { S[out].bs = o; S[out].on = true; }
            vp_ev("sub"); vp_i("id", id); vp_i("n", n); vp_i("out", out); vp_b("ok", r >= 0); vp_end();
        } else if (vp_is("subbit")) {
            int id = (int)vp_int(1), out = (int)vp_int(3), sk = (int)vp_int(4);
            bool b = vp_int(2);
            if (!S[id].on || id == out || be) continue;
            bit_stream_t o;
            int r = sk ? bs_get_bs_bit_and_skip(&S[id].bs, b, &o) : bs_get_bs_bit(&S[id].bs, b, &o);
            if (r >= 0) { S[out].bs = o; S[out].on = true; }
            vp_ev("subbit"); vp_i("id", id); vp_i("b", b); vp_i("out", out); vp_b("skip", sk); vp_b("ok", r >= 0); vp_end();
        } else if (vp_is("addbs")) {
            int id = (int)vp_int(1);
            if (!S[id].on) continue;
            if (be) bb_be_add_bs(&bb, &S[id].bs); else bb_add_bs(&bb, &S[id].bs);
            vp_ev("addbs"); vp_i("id", id); vp_i("len", bb.len); vp_end();
        } else if (vp_is("equals")) {
            int a = (int)vp_int(1), b = (int)vp_int(2);
            if (!S[a].on || !S[b].on) continue;
            vp_ev("equals"); vp_i("a", a); vp_i("b", b); vp_b("r", bs_equals(S[a].bs, S[b].bs)); vp_end();
        } else {
            int id = (int)vp_int(1);
            size_t n = vp_argc > 2 ? vp_int(2) : 0;
            if (!S[id].on) continue;
            bit_stream_t *bs = &S[id].bs;
            if (vp_is("len")) {
                vp_ev("len"); vp_i("id", id); vp_i("n", n); vp_i("len", bs_len(bs)); vp_b("has", bs_has(bs, n));
                vp_b("hasb", bs_has_bytes(bs, n)); vp_b("done", bs_done(bs)); vp_b("al", bs_is_aligned(bs)); vp_end();
            } else if (vp_is("all")) {
                vp_ev("all"); vp_i("id", id); stream(id, "v"); vp_end();
            } else if (vp_is("skip") || vp_is("shrink") || vp_is("clip")) {
                ssize_t r = vp_is("skip") ? bs_skip(bs, n) : vp_is("shrink") ? bs_shrink(bs, n) : bs_clip(bs, n);
                vp_ev(vp_argv[0]); vp_i("id", id); vp_i("n", n); vp_i("r", r); vp_end();
            } else if (vp_is("salign")) {
                ssize_t r = bs_align(bs);
                vp_ev("salign"); vp_i("id", id); vp_i("r", r); vp_end();
            } else if (vp_is("peek") || vp_is("peekl") || vp_is("get") || vp_is("getl")) {
                int r = vp_is("peek") ? (be ? bs_be_peek_bit(bs) : bs_peek_bit(bs))
                      : vp_is("peekl") ? (be ? bs_be_peek_last_bit(bs) : bs_peek_last_bit(bs))
                      : vp_is("get") ? (be ? bs_be_get_bit(bs) : bs_get_bit(bs))
                      : (be ? bs_be_get_last_bit(bs) : bs_get_last_bit(bs));
                vp_ev(vp_argv[0]); vp_i("id", id); vp_i("r", r); vp_end();
            } else if (vp_is("gets") || vp_is("getsl")) {
                uint64_t v = 0xdeadbeef;
                int r = vp_is("gets") ? (be ? bs_be_get_bits(bs, n, &v) : bs_get_bits(bs, n, &v))
                      : (be ? bs_be_get_last_bits(bs, n, &v) : bs_get_last_bits(bs, n, &v));
                vp_ev(vp_argv[0]); vp_i("id", id); vp_i("n", n); vp_i("r", r);
                if (r > 0 && n < 64 && (v >> n)) r = 0;  /* stray high bits */
                bits("v", v, r > 0 ? r : 0); vp_end();
            } else if (vp_is("getb")) {
                pstream_t ps;
                int r = bs_get_bytes(bs, n, &ps);
                vp_ev("getb"); vp_i("id", id); vp_i("n", n); vp_b("ok", r >= 0);
                bytes_as_bits("v", ps.b, r >= 0 ? ps_len(&ps) : 0); vp_end();
            } else if (vp_is("upto") || vp_is("after") || vp_is("downto") || vp_is("before")) {
                bool b = n;
                ssize_t max = vp_int(3);
                if (be) continue;
                ssize_t r = vp_is("upto") ? bs_skip_upto_bit(bs, b, max) : vp_is("after") ? bs_skip_after_bit(bs, b, max)
                          : vp_is("downto") ? bs_shrink_downto_bit(bs, b, max) : bs_shrink_before_bit(bs, b, max);
                vp_ev(vp_argv[0]); vp_i("id", id); vp_i("b", b); vp_i("max", max); vp_i("r", r); vp_end();
            } else vp_bad();
        }
    }
    vp_done();
    return 0;
}
