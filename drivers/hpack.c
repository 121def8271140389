/* Header compression: encoder and decoder. */
#include <lib-common/core.h>
#include <lib-common/net/hpack.h>
#include <lib-common/net/hpack-priv.h>
#include <lib-common/log.h>
#include "vp.h"

static hpack_enc_dtbl_t enc;
static hpack_dec_dtbl_t dec;
static bool on, dead;
static byte wire[1 << 20];
static size_t wlen, left;

/* reads one item (header or size update) of exactly n bytes of input */
static void one(const char *op, const byte *in, size_t n)
{
    byte *b = malloc(n);
    pstream_t ps = ps_init(b, n);
    int r;
    memcpy(b, in, n);
    vp_ev(op); vp_bytes("b", in, n);
    r = hpack_decoder_read_dts_update(&dec, &ps);
    if (r) {
        vp_b("ok", r > 0); vp_arr("k"); vp_arr_end(); vp_arr("v"); vp_arr_end();
        if (r < 0) dead = true;
    } else {
        hpack_xhdr_t x;
        int len = hpack_decoder_extract_hdr(&dec, &ps, &x), kl = 0;
        if (len >= 0) {
            byte *out = malloc(len + 4);
            len = hpack_decoder_write_hdr(&dec, &x, out, &kl);
            if (len >= 0) {
                bool fmt = len >= kl + 4 && !memcmp(out + kl, ": ", 2) && !memcmp(out + len - 2, "\r\n", 2);
                vp_b("ok", fmt); vp_bytes("k", out, kl); vp_bytes("v", out + kl + 2, len - kl - 4);
            }
            free(out);
        }
        if (len < 0) { vp_b("ok", false); vp_arr("k"); vp_arr_end(); vp_arr("v"); vp_arr_end(); dead = true; }
    }
    vp_i("left", ps_len(&ps)); vp_i("size", dec.tbl_size); vp_i("cnt", hpack_dec_dtbl_get_count(&dec)); vp_end();
    left = ps_len(&ps);
    if (!strcmp(op, "recv")) { wlen = left; memmove(wire, wire + n - left, left); }
    free(b);
}

int main(void)
{
    static byte kb[4096], vb[8192], big[65536];
    vp_init();
    logger_set_level(LSTR_EMPTY_V, LOG_CRIT, 0);
    while (vp_next()) {
        if (vp_is("reset")) {
            if (on) { hpack_enc_dtbl_wipe(&enc); hpack_dec_dtbl_wipe(&dec); }
            hpack_enc_dtbl_init(&enc); hpack_dec_dtbl_init(&dec);
            hpack_enc_dtbl_init_settings(&enc, (uint32_t)vp_int(1));
            hpack_dec_dtbl_init_settings(&dec, (uint32_t)vp_int(1));
            on = true; dead = false; wlen = 0;
            vp_ev("reset"); vp_i("n", vp_int(1)); vp_end();
            continue;
        }
        if (dead) continue;
        if (vp_is("enc")) {
            /* enc flags kid vid key val */
            unsigned flags = (unsigned)vp_int(1);
            int kid = (int)vp_int(2), vid = (int)vp_int(3);
            size_t kn = vp_unhex(vp_arg(4), kb, sizeof(kb)), vn = vp_unhex(vp_arg(5), vb, sizeof(vb));
            lstr_t k = LSTR_DATA_V(kb, kn), v = LSTR_DATA_V(vb, vn);
            int room = hpack_buflen_to_write_hdr(k, v, flags);
            byte *out = malloc(room);
            int n = hpack_encoder_write_hdr(&enc, k, v, kid, vid, flags, out);
            vp_ev("enc"); vp_bytes("k", kb, kn); vp_bytes("v", vb, vn); vp_i("flags", flags); vp_i("kid", kid); vp_i("vid", vid);
            vp_bytes("out", out, n); vp_i("size", enc.tbl_size); vp_i("cnt", hpack_enc_dtbl_get_count(&enc)); vp_end();
            memcpy(wire + wlen, out, n); wlen += n;
            free(out);
        } else if (vp_is("dts")) {
            byte out[HPACK_BUFLEN_INT];
            uint32_t n = (uint32_t)vp_int(1);
            if (n > enc.tbl_size_max) continue;
            int len = hpack_encoder_write_dts_update(&enc, n, out);
            vp_ev("dts"); vp_i("n", n); vp_bytes("out", out, len); vp_i("size", enc.tbl_size); vp_i("cnt", hpack_enc_dtbl_get_count(&enc)); vp_end();
            memcpy(wire + wlen, out, len); wlen += len;
        } else if (vp_is("max")) {
            /* settings accepted between two blocks; a smaller one must be followed by an update */
            uint32_t n = (uint32_t)vp_int(1);
            if (wlen || enc.tbl_size_limit > n || dec.tbl_size_limit > n) continue;
            enc.tbl_size_max = dec.tbl_size_max = n;
            vp_ev("max"); vp_i("n", n); vp_end();
        } else if (vp_is("flush")) {
            while (wlen && !dead) one("recv", wire, wlen);
        } else if (vp_is("forged")) {
            /* bytes of our own, after which the two ends no longer agree */
            size_t n = vp_unhex(vp_arg(1), big, sizeof(big));
            size_t at = 0;
            wlen = 0;
            while (at < n && !dead) {
                one("forged", big + at, n - at);
                at = n - left;
            }
        } else if (vp_is("peek")) {
            int i = (int)vp_int(1);
            if (i > hpack_dec_dtbl_get_count(&dec)) continue;
            hpack_dec_dtbl_entry_t *e = hpack_dec_dtbl_get_ent(&dec, i - 1);
            vp_ev("peek"); vp_i("i", i); vp_bytes("k", e->key.s, e->key.len); vp_bytes("v", e->val.s, e->val.len); vp_end();
        } else vp_bad();
    }
    vp_done();
    return 0;
}
