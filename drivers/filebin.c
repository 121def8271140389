/* Binary record files.  A is written through the library; B is a copy of a prefix of A,
 * grown byte by byte as the script says, which is what a concurrent reader can see of a
 * file being written; B may also be damaged. */
#include <lib-common/core.h>
#include <lib-common/file-bin.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>
#include "vp.h"

static file_bin_t *W, *R;
static sb_t img;              /* bytes of A when B was last fed */
static off_t blen;

static byte *content(unsigned seed, size_t n)
{
    static byte *buf;
    static size_t sz;
    if (n + 1 > sz) { buf = realloc(buf, sz = n + 1); }
    for (size_t i = 0; i < n; i++) {
        seed = seed * 1103515245 + 12345;
        /* many zeros and small values: lengths to be mistaken for */
        buf[i] = (seed >> 16) % 3 ? (seed >> 20) % 5 : seed >> 17;
    }
    return buf;
}
static void tok_(char *out, const byte *p, size_t n)
{
    if (n <= 48) {
        for (size_t i = 0; i < n; i++) sprintf(out + 2 * i, "%02x", p[i]);
        out[2 * n] = 0;
    } else {
        uint64_t h = 1469598103934665603ull;
        for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 1099511628211ull;
        sprintf(out, "%zu:%016jx", n, (uintmax_t)h);
    }
}
static void load(const char *path, sb_t *sb)
{
    char buf[65536];
    int fd = open(path, O_RDONLY);
    ssize_t n;
    sb_reset(sb);
    if (fd < 0) return;
    while ((n = read(fd, buf, sizeof(buf))) > 0) sb_add(sb, buf, n);
    close(fd);
}
static long fsz(const char *path) { struct stat st; return stat(path, &st) < 0 ? -1 : (long)st.st_size; }
static void rclose(void) { if (R && file_bin_close(&R) < 0) abort(); R = NULL; }
static void wclose(void) { if (W && file_bin_close(&W) < 0) abort(); W = NULL; }
static void need(bool c) { if (!c) { fprintf(stderr, "not possible: %s\n", vp_argv[0]); exit(3); } }
static void onerec(const char *k, lstr_t r)
{
    static char t[256];
    if (!r.s) { vp_s(k, "none"); return; }
    tok_(t, (const byte *)r.s, r.len);
    vp_s(k, t);
}

int main(void)
{
    static char t[256];
    vp_init();
    sb_init(&img);
    while (vp_next()) {
        if (vp_is("ifopen")) {
            if (!R) continue;
            memmove(vp_argv, vp_argv + 1, sizeof(*vp_argv) * --vp_argc);
        }
        if (vp_is("reset")) {
            rclose(); wclose();
            unlink("A"); unlink("B"); blen = 0;
            vp_ev("reset"); vp_end();
        } else
        if (vp_is("old")) {                 /* a file of the version without header */
            int n = (int)vp_int(1);
            byte *p = content((unsigned)vp_int(2), n);
            int fd = open("A", O_WRONLY | O_CREAT | O_TRUNC, 0600);
            byte h[4] = { n, n >> 8, n >> 16, n >> 24 };
            need(!W && fd >= 0 && n > 0 && n < 16);
            if (write(fd, h, 4) != 4 || write(fd, p, n) != n) exit(3);
            close(fd);
            tok_(t, p, n);
            vp_ev("old"); vp_i("n", n); vp_s("tok", t); vp_bytes("b", p, n); vp_end();
        } else
        if (vp_is("create")) {
            uint32_t slot = (uint32_t)vp_u64(1);
            bool tr = vp_int(2);
            need(!W);
            W = file_bin_create(LSTR("A"), slot, tr);
            vp_ev("create"); vp_i("slot", slot ? slot : FILE_BIN_DEFAULT_SLOT_SIZE); vp_b("tr", tr); vp_b("ok", W != NULL); vp_end();
        } else
        if (vp_is("put")) {
            size_t n = vp_u64(1);
            byte *p = content((unsigned)vp_int(2), n);
            byte *q = malloc(n ?: 1);
            int r;
            need(W);
            memcpy(q, p, n);
            r = file_bin_put_record(W, q, n);
            free(q);
            tok_(t, p, n);
            vp_ev("put"); vp_i("n", n); vp_s("tok", t); vp_bytes("b", p, n <= 600 ? n : 0); vp_b("ok", r >= 0); vp_i("cur", W->cur); vp_end();
        } else
        if (vp_is("flush")) {
            need(W);
            int r = vp_int(1) ? file_bin_sync(W) : file_bin_flush(W);
            vp_ev("flush"); vp_b("ok", r >= 0); vp_i("size", fsz("A")); vp_end();
        } else
        if (vp_is("trunc")) {               /* argument: position */
            need(W);
            off_t pos = vp_int(1);
            int r = file_bin_truncate(W, pos);
            vp_ev("trunc"); vp_i("pos", pos); vp_b("ok", r >= 0); vp_i("size", fsz("A")); vp_end();
        } else
        if (vp_is("close")) {
            need(W);
            bool ok = file_bin_close(&W) >= 0;
            vp_ev("close"); vp_b("ok", ok); vp_i("size", fsz("A")); vp_end();
        } else
        if (vp_is("image")) {
            SB_1k(sb);
            if (W) need(file_bin_flush(W) >= 0);
            load("A", &sb);
            vp_ev("image"); vp_bytes("c", sb.data, sb.len); vp_end();
        } else
        if (vp_is("snap")) {                /* B := first n bytes of A (-1: all) */
            long n = (long)vp_int(1);
            int fd;
            rclose();
            if (W) need(file_bin_flush(W) >= 0);
            load("A", &img);
            if (n < 0 || n > img.len) n = img.len;
            fd = open("B", O_WRONLY | O_CREAT | O_TRUNC, 0600);
            need(fd >= 0 && write(fd, img.data, n) == n);
            close(fd);
            blen = n;
            vp_ev("snap"); vp_i("n", n); vp_i("size", img.len); vp_end();
        } else
        if (vp_is("grow")) {                /* n more bytes of A in B */
            long n = (long)vp_int(1);
            int fd = open("B", O_WRONLY | O_APPEND);
            need(fd >= 0);
            if (n < 0 || n > img.len - blen) n = img.len - blen;
            need(write(fd, img.data + blen, n) == n);
            close(fd);
            blen += n;
            vp_ev("grow"); vp_i("n", n); vp_end();
        } else
        if (vp_is("damage")) {              /* offset, bytes */
            long off = (long)vp_int(1);
            byte b[256];
            size_t n = vp_unhex(vp_arg(2), b, sizeof(b));
            int fd = open("B", O_WRONLY);
            need(fd >= 0 && off + (long)n <= blen && !R);
            need(pwrite(fd, b, n, off) == (ssize_t)n);
            close(fd);
            long v = n == 4 ? b[0] | b[1] << 8 | b[2] << 16 | (long)b[3] << 24 : 0;
            vp_ev("damage"); vp_i("off", off); vp_i("n", n); vp_i("v", v > 1 << 29 ? -1 : v); vp_end();
        } else
        if (vp_is("raw")) {                 /* B := bytes */
            byte b[4096];
            size_t n = vp_unhex(vp_arg(1), b, sizeof(b));
            int fd;
            rclose();
            fd = open("B", O_WRONLY | O_CREAT | O_TRUNC, 0600);
            need(fd >= 0 && write(fd, b, n) == (ssize_t)n);
            close(fd);
            blen = n;
            vp_ev("raw"); vp_end();
        } else
        if (vp_is("open")) {
            rclose();
            R = file_bin_open(LSTR("B"));
            vp_ev("open"); vp_b("ok", R != NULL); vp_end();
        } else
        if (vp_is("refresh")) {
            need(R);
            bool ok = file_bin_refresh(R) >= 0;
            vp_ev("refresh"); vp_b("ok", ok); vp_end();
        } else
        if (vp_is("next")) {
            need(R);
            lstr_t r = file_bin_get_next_record(R);
            vp_ev("next"); onerec("r", r); vp_b("fin", file_bin_is_finished(R)); vp_end();
        } else
        if (vp_is("rewind")) {
            need(R);
            int ok = _file_bin_seek(R, 0);
            vp_ev("rewind"); vp_b("ok", ok >= 0); vp_end();
        } else
        if (vp_is("last")) {
            t_scope;
            qv_t(lstr) v;
            int c = (int)vp_int(1), r;
            need(R);
            qv_init(&v);
            r = t_file_bin_get_last_records(R, c, &v);
            vp_ev("last"); vp_i("n", c); vp_b("ok", r >= 0);
            vp_arr("r");
            tab_for_each_entry(l, &v) { tok_(t, (const byte *)l.s, l.len); vp_as(t); }
            vp_arr_end(); vp_end();
            qv_wipe(&v);
        } else
        if (vp_is("all")) {                 /* everything from here */
            need(R);
            vp_ev("all");
            vp_arr("r");
            file_bin_for_each_entry(R, l) { tok_(t, (const byte *)l.s, l.len); vp_as(t); }
            vp_arr_end(); vp_b("fin", file_bin_is_finished(R)); vp_end();
        } else
            vp_bad();
    }
    rclose(); wclose();
    vp_done();
    return 0;
}
