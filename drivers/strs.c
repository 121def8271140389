/* C40: string buffers and parsing streams. */
#include <lib-common/core.h>
#include <lib-common/unix.h>
#include <lib-common/net.h>
#include <sys/socket.h>
#include "vp.h"

#define NSB 3
#define NPS 4
#define MAXB (1 << 20)
static sb_t sbs[NSB];
static char kinds[NSB];
static char *stat_buf[NSB];
static mem_pool_t *fifo;
static byte *tmp, *tmp2;

static byte *src;              /* source of the streams, exact size */
static size_t srclen;
static pstream_t pss[NPS];
static bool live;

static size_t hexarg(int i, byte *b) { return vp_unhex(vp_arg(i), b, MAXB); }
static sb_t *sbarg(int i) { return &sbs[vp_int(i) % NSB]; }

static void drop(int i)
{
    if (kinds[i]) {
        sb_wipe(&sbs[i]);
        p_delete(&stat_buf[i]);
        kinds[i] = 0;
    }
}
static void out_sb(int i)
{
    sb_t *sb = &sbs[i];
    vp_i("id", i);
    vp_i("len", sb->len);
    vp_b("t", sb->size > sb->len && sb->skip >= 0 && sb->data[sb->len] == '\0');
    /* the room the buffer says it has is really there */
    if (sb->len <= 48) {
        vp_bytes("c", sb->data, sb->len);
    }
}
static void sb_ev(const char *op, int i) { vp_ev(op); out_sb(i); }

static void room(sb_t *sb)
{
    /* every byte of the announced room may be written */
    int n = sb_avail(sb);
    if (sb->data != __sb_slop && n > 0) {
        memset(sb_end(sb), 0xa5, n + 1);
        sb_set_trailing0(sb);
    }
}

static void cset(ctype_desc_t *d, int i)
{
    static byte b[512];
    size_t n = hexarg(i, b);
    ctype_desc_build2(d, (char *)b, n);
}
static void out_ps(const char *k, pstream_t ps)
{
    vp_arr(k);
    vp_ai(ps.b - src);
    vp_ai(ps.b_end - src);
    vp_arr_end();
}
static void ps_ev(const char *op, int i, int r) { vp_ev(op); vp_i("id", i); out_ps("ps", pss[i]); vp_i("r", r); }

static void files(const char *name, const void *d, size_t n)
{
    FILE *f = fopen(name, "w");
    fwrite(d, 1, n, f);
    fclose(f);
}
static int fd_of(const char *how, const void *d, size_t n)
{
    if (!strcmp(how, "file")) {
        files("in", d, n);
        return open("in", O_RDONLY);
    }
    if (!strcmp(how, "pipe")) {
        int p[2];
        if (pipe(p) || write(p[1], d, n) != (ssize_t)n) exit(3);
        close(p[1]);
        return p[0];
    } else {
        int p[2];
        if (socketpair(AF_UNIX, SOCK_STREAM, 0, p) || write(p[1], d, n) != (ssize_t)n) exit(3);
        close(p[1]);
        return p[0];
    }
}

static void do_sb(void)
{
    int id = vp_int(1) % NSB;
    sb_t *sb = &sbs[id];

    if (vp_is("new")) {
        int size = vp_int(3);
        drop(id);
        kinds[id] = vp_arg(2)[0];
        switch (kinds[id]) {
          case 'm': sb_init(sb); break;
          case 'M': mp_sb_init(&mem_pool_libc, sb, size); break;
          case 't': t_sb_init(sb, size); break;
          case 'f': mp_sb_init(fifo, sb, size); break;
          case 's':
            stat_buf[id] = p_new_raw(char, size);
            memset(stat_buf[id], 0xa5, size);
            sb_init_full(sb, stat_buf[id], 0, size, &mem_pool_static);
            break;
          default: vp_bad();
        }
        sb_ev("new", id);
    } else if (vp_is("add")) {
        size_t n = hexarg(2, tmp);
        sb_add(sb, tmp, n);
        sb_ev("add", id); vp_bytes("v", tmp, n);
    } else if (vp_is("adds")) {
        size_t n = hexarg(2, tmp); tmp[n] = 0;
        sb_adds(sb, (char *)tmp);
        sb_ev("add", id); vp_bytes("v", tmp, n);
    } else if (vp_is("addlstr")) {
        size_t n = hexarg(2, tmp);
        sb_add_lstr(sb, LSTR_DATA_V(tmp, n));
        sb_ev("add", id); vp_bytes("v", tmp, n);
    } else if (vp_is("addps")) {
        size_t n = hexarg(2, tmp);
        sb_add_ps(sb, ps_init(tmp, n));
        sb_ev("add", id); vp_bytes("v", tmp, n);
    } else if (vp_is("addc")) {
        sb_addc(sb, vp_int(2));
        sb_ev("addnc", id); vp_i("n", 1); vp_i("b", vp_int(2));
    } else if (vp_is("addnc")) {
        if (vp_int(3)) sb_addnc(sb, vp_int(2), vp_int(3)); else sb_add0s(sb, vp_int(2));
        sb_ev("addnc", id); vp_i("n", vp_int(2)); vp_i("b", vp_int(3));
    } else if (vp_is("adduc")) {
        sb_adduc(sb, vp_int(2));
        sb_ev("adduc", id); vp_i("u", vp_int(2));
    } else if (vp_is("addsb")) {
        int j = vp_int(2) % NSB;
        if (j == id) exit(3);
        sb_addsb(sb, &sbs[j]);
        sb_ev("addsb", id); vp_i("from", j);
    } else if (vp_is("splice")) {
        /* positions are taken modulo what exists */
        int pos = vp_int(2) % (sb->len + 1), rm = vp_int(3) % (sb->len - pos + 1);
        size_t n = hexarg(4, tmp);
        const char *how = vp_arg(5);
        char *p;
        if (!strcmp(how, "end0")) { pos = sb->len; rm = 0; p = sb_splice(sb, pos, 0, tmp, n); }
        else if (!strcmp(how, "rm0")) { rm = 0; p = sb_splice(sb, pos, 0, tmp, n); }
        else if (!strcmp(how, "del")) { n = 0; p = sb_splice(sb, pos, rm, NULL, 0); }
        else if (!strcmp(how, "k21")) {
            if (sb->len - pos < 2) { pos = 0; }
            if (sb->len < 2) return;
            rm = 2; n = 1; tmp[0] = 'k';
            p = sb_splice(sb, pos, 2, "k", 1);
        } else if (!strcmp(how, "lstr")) p = sb_splice_lstr(sb, pos, rm, LSTR_DATA_V(tmp, n));
        else p = sb_splice(sb, pos, rm, tmp, n);
        sb_ev("splice", id); vp_i("pos", pos); vp_i("rm", rm); vp_bytes("v", tmp, n); vp_i("r", p - sb->data);
    } else if (vp_is("splicenc")) {
        int pos = vp_int(2) % (sb->len + 1), rm = vp_int(3) % (sb->len - pos + 1);
        if (vp_int(5)) sb_splicenc(sb, pos, rm, vp_int(4), vp_int(5)); else sb_splice0s(sb, pos, rm, vp_int(4));
        sb_ev("splicenc", id); vp_i("pos", pos); vp_i("rm", rm); vp_i("n", vp_int(4)); vp_i("b", vp_int(5));
    } else if (vp_is("prepend")) {
        size_t n = hexarg(2, tmp); tmp[n] = 0;
        const char *how = vp_arg(3);
        if (!strcmp(how, "s")) sb_prepends(sb, (char *)tmp);
        else if (!strcmp(how, "f")) { if (sb_prependf(sb, "%s", (char *)tmp) != (int)n) n = -1; }
        else if (!strcmp(how, "c")) { if (!n) return; n = 1; sb_prependc(sb, tmp[0]); }
        else sb_prepend_lstr(sb, LSTR_DATA_V(tmp, n));
        sb_ev("splice", id); vp_i("pos", 0); vp_i("rm", 0); vp_bytes("v", tmp, n); vp_i("r", 0);
    } else if (vp_is("cut")) {
        int n = vp_int(3) % (sb->len + 1);
        const char *how = vp_arg(2);
        if (!strcmp(how, "skip")) sb_skip(sb, n);
        else if (!strcmp(how, "skipupto")) sb_skip_upto(sb, sb->data + n);
        else if (!strcmp(how, "clip")) sb_clip(sb, n);
        else if (!strcmp(how, "shrink")) sb_shrink(sb, n);
        else if (!strcmp(how, "shrinkupto")) sb_shrink_upto(sb, sb->data + n);
        else vp_bad();
        sb_ev("cut", id); vp_s("how", how); vp_i("n", n);
    } else if (vp_is("trim")) {
        const char *how = vp_arg(2);
        if (vp_arg(3)[0] == '_') {
            if (!strcmp(how, "l")) sb_ltrim(sb); else if (!strcmp(how, "r")) sb_rtrim(sb); else sb_trim(sb);
            sb_ev("trim", id); vp_s("how", how); vp_bytes("set", " \t\n\v\f\r", 6);
        } else {
            ctype_desc_t d; cset(&d, 3);
            size_t n = hexarg(3, tmp);
            if (!strcmp(how, "l")) sb_ltrim_ctype(sb, &d); else if (!strcmp(how, "r")) sb_rtrim_ctype(sb, &d); else sb_trim_ctype(sb, &d);
            sb_ev("trim", id); vp_s("how", how); vp_bytes("set", tmp, n);
        }
    } else if (vp_is("set")) {
        size_t n = hexarg(3, tmp); tmp[n] = 0;
        const char *how = vp_arg(2);
        if (!strcmp(how, "s")) sb_sets(sb, (char *)tmp);
        else if (!strcmp(how, "l")) sb_set_lstr(sb, LSTR_DATA_V(tmp, n));
        else if (!strcmp(how, "f")) sb_setf(sb, "%s", (char *)tmp);
        else sb_set(sb, tmp, n);
        sb_ev("set", id); vp_bytes("v", tmp, n);
    } else if (vp_is("setsb")) {
        int j = vp_int(2) % NSB;
        if (j == id) exit(3);
        sb_setsb(sb, &sbs[j]);
        sb_ev("setsb", id); vp_i("from", j);
    } else if (vp_is("clear")) {
        const char *how = vp_arg(2);
        if (!strcmp(how, "reset")) sb_reset(sb);
        else if (!strcmp(how, "keep")) sb_reset_keep_mem(sb);
        else if (!strcmp(how, "wipe")) sb_wipe(sb);
        else sb_reset_reverse(sb);
        sb_ev("set", id); vp_arr("v"); vp_arr_end();
    } else if (vp_is("hold")) {
        /* nothing that changes the contents */
        const char *how = vp_arg(2);
        int n = vp_int(3);
        bool ok = true;
        if (!strcmp(how, "grow")) { char *p = sb_grow(sb, n); ok = p == sb_end(sb) && sb_avail(sb) >= n; room(sb); }
        else if (!strcmp(how, "optimize")) sb_optimize(sb, n);
        else if (!strcmp(how, "room")) room(sb);
        else { /* rewind */
            sb_t orig = *sb;
            sb_add(sb, "rewound", 7);
            sb_addnc(sb, n, 'z');
            ok = __sb_rewind_adds(sb, &orig) == -1;
        }
        sb_ev("hold", id); vp_b("ok", ok);
    } else if (vp_is("growlen")) {
        char *p = sb_growlen(sb, vp_int(2));
        memset(p, vp_int(3), vp_int(2));
        sb_ev("addnc", id); vp_i("n", vp_int(2)); vp_i("b", vp_int(3));
    } else if (vp_is("detach")) {
        int len = -1;
        char *p = sb_detach(sb, vp_int(2) ? &len : NULL);
        sb_ev("detach", id);
        vp_i("dl", len);
        vp_i("n", strlen(p));
        vp_bytes("v", p, (len < 0 ? (int)strlen(p) : len) + 1);
        p_delete(&p);
    } else if (vp_is("addf")) {
        size_t n = hexarg(2, tmp); tmp[n] = 0;
        int r;
        if (vp_int(3)) r = sb_addf(sb, "%*pM", (int)n, tmp); else r = sb_addf(sb, "%s", (char *)tmp);
        sb_ev("addf", id); vp_bytes("v", tmp, n); vp_i("r", r);
    } else if (vp_is("fill")) {
        /* formats a string that leaves vp_int(2) bytes of the room (negative: exceeds it) */
        int n = sb_avail(sb) - vp_int(2), r;
        if (n < 0 || n > 70000) return;
        memset(tmp, 'F', n); tmp[n] = 0;
        r = sb_addf(sb, "%s", (char *)tmp);
        sb_ev("fill", id); vp_i("n", n); vp_i("b", 'F'); vp_i("r", r);
    } else if (vp_is("search")) {
        int pos = vp_int(2) % (sb->len + 1);
        size_t n = hexarg(3, tmp);
        int r = sb_search(sb, pos, tmp, n);
        sb_ev("search", id); vp_i("pos", pos); vp_bytes("v", tmp, n); vp_i("r", r);
    } else if (vp_is("cmp")) {
        int j = vp_int(2) % NSB;
        int r = sb_cmp(sb, &sbs[j]);
        sb_ev("cmp", id); vp_i("with", j); vp_i("r", (r > 0) - (r < 0));
    } else if (vp_is("window")) {
        int pos = vp_int(2) % (sb->len + 1), n = MIN(vp_int(3), sb->len - pos);
        sb_ev("window", id); vp_i("pos", pos); vp_bytes("v", sb->data + pos, n);
    } else if (vp_is("sanit")) {
        size_t n = hexarg(2, tmp), m = hexarg(3, tmp2);
        ctype_desc_t d; cset(&d, 3);
        int c = vp_int(5);
        if (vp_int(4)) { if (c < 0) sb_add_filtered_out(sb, LSTR_DATA_V(tmp, n), &d); else sb_add_sanitized_out(sb, LSTR_DATA_V(tmp, n), &d, c); }
        else { if (c < 0) sb_add_filtered(sb, LSTR_DATA_V(tmp, n), &d); else sb_add_sanitized(sb, LSTR_DATA_V(tmp, n), &d, c); }
        sb_ev("sanit", id); vp_bytes("v", tmp, n); vp_bytes("set", tmp2, m); vp_b("out", vp_int(4)); vp_i("b", c);
    } else if (vp_is("uintf") || vp_is("intf")) {
        const char *s = vp_arg(2);
        if (vp_is("uintf")) sb_add_uint_fmt(sb, strtoull(s, NULL, 10), vp_int(3));
        else sb_add_int_fmt(sb, strtoll(s, NULL, 10), vp_int(3));
        sb_ev("numf", id); vp_bytes("v", s, strlen(s)); vp_i("sep", vp_int(3));
    } else if (vp_is("doublef")) {
        /* neg int frac(padded digits) nb dec sep */
        char buf[128];
        snprintf(buf, sizeof(buf), "%s%s.%s", vp_int(2) ? "-" : "", vp_arg(3), vp_arg(4));
        sb_add_double_fmt(sb, strtod(buf, NULL), vp_int(5), vp_int(6), vp_int(7));
        sb_ev("doublef", id); vp_b("neg", vp_int(2)); vp_bytes("ip", vp_arg(3), strlen(vp_arg(3)));
        vp_bytes("fp", vp_arg(4), strlen(vp_arg(4))); vp_i("nb", vp_int(5)); vp_i("dec", vp_int(6)); vp_i("sep", vp_int(7));
    } else if (vp_is("dur")) {
        int64_t d = vp_int(2), r = vp_int(3);
        if (vp_int(4)) sb_add_duration_ms(sb, d * 86400000 + r); else sb_add_duration_s(sb, d * 86400 + r);
        sb_ev("dur", id); vp_i("d", d); vp_i("r", r); vp_b("ms", vp_int(4));
    } else if (vp_is("pkcs7")) {
        sb_add_pkcs7_8_bytes_padding(sb);
        sb_ev("pkcs7", id);
    } else if (vp_is("getline")) {
        /* all the lines of a file, one event per line; how many bytes first */
        size_t n = hexarg(3, tmp);
        int fd = fd_of(vp_arg(2), tmp, n);
        FILE *f = fdopen(fd, "r");
        size_t pos = 0;
        for (;;) {
            int r = sb_getline(sb, f);
            sb_ev("getline", id); vp_bytes("v", tmp + pos, MIN(n - pos, 64)); vp_i("r", r); vp_i("left", n - pos);
            vp_i("nl", n - pos ? (char *)(memchr(tmp + pos, '\n', n - pos) ?: tmp + n) - (char *)tmp - (int)pos : -1);
            vp_end();
            if (r <= 0) break;
            pos = MIN(pos + r, n);
        }
        fclose(f);
        return;
    } else if (vp_is("fread")) {
        size_t n = hexarg(5, tmp);
        FILE *f = fdopen(fd_of(vp_arg(2), tmp, n), "r");
        int r = sb_fread(sb, vp_int(3), vp_int(4), f);
        fclose(f);
        sb_ev("fread", id); vp_bytes("v", tmp, n); vp_i("size", vp_int(3)); vp_i("nm", vp_int(4)); vp_i("r", r);
    } else if (vp_is("readfd")) {
        size_t n = vp_int(3);
        for (size_t i = 0; i < n; i++) tmp[i] = vp_int(4);
        int fd = fd_of(vp_arg(2), tmp, n), r = sb_read_fd(sb, fd);
        close(fd);
        sb_ev("fill", id); vp_i("n", n); vp_i("b", vp_int(4)); vp_i("r", r);
    } else if (vp_is("readdir")) {
        /* reading fails: nothing is kept */
        int fd = open(".", O_RDONLY), r;
        r = vp_int(2) ? sb_read_fd(sb, fd) : sb_read(sb, fd, vp_int(3));
        close(fd);
        sb_ev("hold", id); vp_b("ok", r == -1);
    } else if (vp_is("readfile")) {
        size_t n = hexarg(2, tmp);
        files("in", tmp, n);
        int r = sb_read_file(sb, "in");
        sb_ev("addf", id); vp_bytes("v", tmp, n); vp_i("r", r);
    } else if (vp_is("read")) {
        size_t n = hexarg(4, tmp);
        int hint = vp_int(3);
        int fd = fd_of(vp_arg(2), tmp, n);
        int r = !strcmp(vp_arg(2), "sock") ? sb_recv(sb, fd, hint, 0) : sb_read(sb, fd, hint);
        close(fd);
        sb_ev("read", id); vp_bytes("v", tmp, n); vp_i("hint", hint); vp_i("r", r);
    } else if (vp_is("write")) {
        int r;
        size_t n = hexarg(3, tmp);
        struct stat st;
        files("out", tmp, n);
        r = vp_int(2) ? sb_append_to_file(sb, "out") : sb_write_file(sb, "out");
        int fd = open("out", O_RDONLY);
        fstat(fd, &st);
        ssize_t k = read(fd, tmp2, MIN(st.st_size, 64));
        close(fd);
        sb_ev("write", id); vp_b("append", vp_int(2)); vp_bytes("v", tmp, n); vp_i("r", r); vp_i("size", st.st_size); vp_bytes("head", tmp2, k);
    } else {
        vp_bad();
    }
    vp_end();
}

static void do_ps(void)
{
    int id = vp_int(1) % NPS;
    pstream_t *ps = &pss[id], o = ps_init(NULL, 0);
    int r;

    if (vp_is("src")) {
        size_t n = hexarg(2, tmp);
        /* exact size so that any byte read outside is seen */
        free(src);
        src = malloc(n ?: 1);
        memcpy(src, tmp, n);
        srclen = n;
        for (int i = 0; i < NPS; i++) pss[i] = ps_init(src, n);
        live = true;
        vp_ev("src"); vp_bytes("v", src, n); vp_end();
        return;
    }
    if (!live) exit(3);
    if (vp_is("pnew")) {
        *ps = ps_init(src, srclen);
        ps_ev("pnew", id, 0);
    } else if (vp_is("pcut")) {
        const char *how = vp_arg(2);
        size_t n = vp_u64(3);
        if (!strcmp(how, "skip")) r = ps_skip(ps, n);
        else if (!strcmp(how, "shrink")) r = ps_shrink(ps, n);
        else if (!strcmp(how, "clip")) r = ps_clip(ps, n);
        else if (!strcmp(how, "data")) { const byte *p = ps->b; const void *q = ps_get_data(ps, n); r = q == p ? 0 : q ? -2 : -1; how = "skip"; }
        else vp_bad(), r = 0;
        ps_ev("pcut", id, r); vp_s("how", how); vp_i("n", n);
    } else if (vp_is("pat")) {
        /* a position of the source, which may lie outside the stream */
        const char *how = vp_arg(2);
        int pos = vp_int(3) % (srclen + 1);
        if (!strcmp(how, "skip")) r = ps_skip_upto(ps, src + pos);
        else if (!strcmp(how, "clip")) r = ps_clip_at(ps, src + pos);
        else if (!strcmp(how, "get")) r = ps_get_ps_upto(ps, src + pos, &o);
        else r = ps_extract_after(ps, src + pos, &o);
        ps_ev("pat", id, r); vp_s("how", how); vp_i("pos", pos);
        if (r >= 0 && (!strcmp(how, "get") || !strcmp(how, "extract"))) out_ps("o", o); else { vp_arr("o"); vp_arr_end(); }
    } else if (vp_is("pchr")) {
        const char *how = vp_arg(2);
        int c = vp_int(3);
        bool got = false;
        if (!strcmp(how, "clipat")) r = ps_clip_atchr(ps, c);
        else if (!strcmp(how, "clipafter")) r = ps_clip_afterchr(ps, c);
        else if (!strcmp(how, "clipatlast")) r = ps_clip_atlastchr(ps, c);
        else if (!strcmp(how, "clipafterlast")) r = ps_clip_afterlastchr(ps, c);
        else if (!strcmp(how, "skipupto")) r = ps_skip_uptochr(ps, c);
        else if (!strcmp(how, "skipafter")) r = ps_skip_afterchr(ps, c);
        else if (!strcmp(how, "skipafterlast")) r = ps_skip_afterlastchr(ps, c);
        else if (!strcmp(how, "get")) { got = true; r = ps_get_ps_chr(ps, c, &o); }
        else if (!strcmp(how, "getskip")) { got = true; r = ps_get_ps_chr_and_skip(ps, c, &o); }
        else if (!strcmp(how, "getlast")) { got = true; r = ps_get_ps_lastchr(ps, c, &o); }
        else if (!strcmp(how, "getlastskip")) { got = true; r = ps_get_ps_lastchr_and_skip(ps, c, &o); }
        else if (!strcmp(how, "skipc")) r = ps_skipc(ps, c);
        else if (!strcmp(how, "shrinkc")) r = ps_shrinkc(ps, c);
        else vp_bad(), r = 0;
        ps_ev("pchr", id, r); vp_s("how", how); vp_i("b", c);
        if (got && r >= 0) out_ps("o", o); else { vp_arr("o"); vp_arr_end(); }
    } else if (vp_is("pdata")) {
        const char *how = vp_arg(2);
        size_t n = hexarg(3, tmp);
        bool got = false;
        bool str = vp_int(4) && !memchr(tmp, 0, n);
        byte *d = malloc(n + str);
        memcpy(d, tmp, n); if (str) d[n] = 0;
        const char *s = (char *)d;
        if (!strcmp(how, "skip")) r = str ? ps_skipstr(ps, s) : ps_skipdata(ps, d, n);
        else if (!strcmp(how, "skipcase")) r = str ? ps_skipcasestr(ps, s) : ps_skipcasedata(ps, s, n);
        else if (!strcmp(how, "upto")) r = str ? ps_skip_upto_str(ps, s) : ps_skip_upto_data(ps, d, n);
        else if (!strcmp(how, "after")) r = str ? ps_skip_after_str(ps, s) : ps_skip_after_data(ps, d, n);
        else if (!strcmp(how, "get")) { got = true; r = str ? ps_get_ps_upto_str(ps, s, &o) : ps_get_ps_upto_data(ps, d, n, &o); }
        else if (!strcmp(how, "getskip")) { got = true; r = str ? ps_get_ps_upto_str_and_skip(ps, s, &o) : ps_get_ps_upto_data_and_skip(ps, d, n, &o); }
        else if (!strcmp(how, "starts")) r = str ? ps_startswithstr(ps, s) : ps_startswithlstr(ps, LSTR_DATA_V(d, n));
        else if (!strcmp(how, "ends")) r = str ? ps_endswithstr(ps, s) : ps_endswithlstr(ps, LSTR_DATA_V(d, n));
        else if (!strcmp(how, "equal")) r = str ? ps_strequal(ps, s) : ps_memequal(ps, d, n);
        else if (!strcmp(how, "caseequal")) r = str ? ps_strcaseequal(ps, s) : ps_memcaseequal(ps, s, n);
        else vp_bad(), r = 0;
        free(d);
        ps_ev("pdata", id, r); vp_s("how", how); vp_bytes("v", tmp, n);
        if (got && r >= 0) out_ps("o", o); else { vp_arr("o"); vp_arr_end(); }
    } else if (vp_is("pget")) {
        r = ps_get_ps(ps, vp_u64(2), &o);
        ps_ev("pget", id, r); vp_i("n", vp_int(2));
        if (r >= 0) out_ps("o", o); else { vp_arr("o"); vp_arr_end(); }
    } else if (vp_is("pspan")) {
        const char *how = vp_arg(2);
        ctype_desc_t d; cset(&d, 3);
        size_t n = hexarg(3, tmp);
        bool got = false;
        r = 0;
        if (!strcmp(how, "skip")) r = ps_skip_span(ps, &d);
        else if (!strcmp(how, "cskip")) r = ps_skip_cspan(ps, &d);
        else if (!strcmp(how, "get")) { got = true; o = ps_get_span(ps, &d); }
        else if (!strcmp(how, "cget")) { got = true; o = ps_get_cspan(ps, &d); }
        else if (!strcmp(how, "tok")) { got = true; o = ps_get_tok(ps, &d); }
        else if (!strcmp(how, "has")) r = ps_has_char_in_ctype(ps, &d);
        else vp_bad();
        ps_ev("pspan", id, r); vp_s("how", how); vp_bytes("set", tmp, n);
        if (got) out_ps("o", o); else { vp_arr("o"); vp_arr_end(); }
    } else if (vp_is("ptrim")) {
        const char *how = vp_arg(2);
        r = !strcmp(how, "l") ? ps_ltrim(ps) : !strcmp(how, "r") ? ps_rtrim(ps) : ps_trim(ps);
        ps_ev("ptrim", id, r); vp_s("how", how);
    } else if (vp_is("pc")) {
        const char *how = vp_arg(2);
        r = !strcmp(how, "get") ? ps_getc(ps) : !strcmp(how, "peek") ? ps_peekc(*ps)
          : !strcmp(how, "hex") ? ps_hexdigit(ps) : ps_hexdecode(ps);
        ps_ev("pc", id, r < 0 ? -1 : r); vp_s("how", how);
    } else if (vp_is("phex")) {
        uint16_t v = 0;
        r = ps_hex16(ps, vp_int(2), &v);
        ps_ev("phex", id, r); vp_i("n", vp_int(2)); vp_i("v", r < 0 ? -1 : v);
    } else if (vp_is("pgets")) {
        int len = -1;
        const byte *p = ps->b;
        if (vp_int(2)) {
            lstr_t s = ps_get_lstr(ps);
            r = s.s ? s.len : -1;
            if (s.s && (byte *)s.s != p) r = -2;
        } else {
            const char *s = ps_gets(ps, &len);
            r = s ? len : -1;
            if (s && (byte *)s != p) r = -2;
        }
        ps_ev("pgets", id, r);
    } else if (vp_is("pcmp")) {
        int j = vp_int(2) % NPS;
        r = ps_cmp(*ps, pss[j]);
        ps_ev("pcmp", id, (r > 0) - (r < 0)); vp_i("with", j); vp_b("eq", ps_is_equal(*ps, pss[j]));
    } else if (vp_is("plen")) {
        size_t n = vp_u64(2);
        ps_ev("plen", id, ps_len(ps)); vp_i("n", n); vp_b("has", ps_has(ps, n)); vp_b("done", ps_done(ps));
    } else if (vp_is("pblock")) {
        const byte *p = ps->b, *q = ps_get_block(ps, vp_u64(2), vp_u64(3));
        ps_ev("pblock", id, q ? (q == p ? 0 : -2) : -1); vp_i("n", vp_int(2)); vp_i("al", vp_int(3));
    } else if (vp_is("pcopyv")) {
        struct iovec iov[8];
        size_t n = vp_argc - 3, tot = 0, k;
        int fl = vp_int(2) == 1 ? MSG_TRUNC : 0, *flp = vp_int(2) == 2 ? NULL : &fl;
        for (size_t i = 0; i < n; i++) { iov[i].iov_len = vp_int(3 + i); iov[i].iov_base = malloc(vp_int(3 + i) ?: 1); }
        k = n;
        r = ps_copyv(ps, iov, &k, flp);
        ps_ev("pcopyv", id, r); vp_i("fl", vp_int(2)); vp_b("trunc", fl & MSG_TRUNC);
        vp_arr("ns"); for (size_t i = 0; i < n; i++) vp_ai(vp_int(3 + i)); vp_arr_end();
        vp_arr("got"); for (size_t i = 0; i < k; i++) vp_ai(iov[i].iov_len); vp_arr_end();
        for (size_t i = 0; i < k; i++) { memcpy(tmp + tot, iov[i].iov_base, iov[i].iov_len); tot += iov[i].iov_len; }
        for (size_t i = 0; i < n; i++) free(iov[i].iov_base);
        vp_bytes("v", tmp, tot);
    } else if (vp_is("psplit")) {
        /* flags, separators, escape (-1: the plain split; 0: none), pool */
        qv_t(lstr) res;
        ctype_desc_t d; cset(&d, 3);
        size_t n = hexarg(3, tmp);
        int esc = vp_int(4);
        mem_pool_t *mp = vp_arg(5)[0] == 't' ? t_pool() : vp_arg(5)[0] == 'f' ? fifo : NULL;
        qv_init(&res);
        if (esc < 0) ps_split(*ps, &d, vp_int(2), &res);
        else ps_split_escaped(mp, *ps, &d, esc, vp_int(2), &res);
        ps_ev("psplit", id, res.len); vp_i("skip", vp_int(2)); vp_bytes("set", tmp, n); vp_i("esc", esc);
        vp_arr("v");
        tab_for_each_ptr(s, &res) {
            vp_sep(); fputc('[', vp_out);
            for (int i = 0; i < s->len; i++) fprintf(vp_out, i ? ",%d" : "%d", ((byte *)s->s)[i]);
            fputc(']', vp_out);
        }
        vp_arr_end();
        if (esc >= 0) tab_for_each_ptr(s, &res) {
            if (mp == fifo) mp_delete(fifo, &s->v);
            else lstr_wipe(s);
        }
        qv_wipe(&res);
    } else if (vp_is("pcsv")) {
        qv_t(lstr) res;
        pstream_t line = ps_init(NULL, 0);
        const byte *st = ps->b;
        mem_pool_t *mp = vp_arg(4)[0] == 't' ? t_pool() : NULL;
        qv_init(&res);
        r = ps_get_csv_line(mp, ps, vp_int(2), vp_int(3), &res, &line);
        ps_ev("pcsv", id, r); vp_i("sep", vp_int(2)); vp_i("quote", vp_int(3));
        if (r >= 0) { vp_arr("line"); vp_ai(line.b ? line.b - src : st - src); vp_ai(line.b ? line.b_end - src : st - src); vp_arr_end(); }
        else { vp_arr("line"); vp_arr_end(); }
        vp_arr("v");
        tab_for_each_ptr(s, &res) {
            vp_sep(); fputc('[', vp_out);
            for (int i = 0; i < s->len; i++) fprintf(vp_out, i ? ",%d" : "%d", ((byte *)s->s)[i]);
            fputc(']', vp_out);
        }
        vp_arr_end();
        tab_for_each_ptr(s, &res) lstr_wipe(s);
        qv_wipe(&res);
    } else {
        vp_bad();
    }
    vp_end();
}

int main(void)
{
    vp_init();
    tmp = malloc(MAXB + 1);
    tmp2 = malloc(MAXB + 1);
    fifo = mem_fifo_pool_new("strs", 1 << 16);
    mem_stack_push(t_pool());
    while (vp_next()) {
        if (vp_is("begin")) {
            for (int i = 0; i < NSB; i++) drop(i);
            mem_stack_pop(t_pool());
            mem_stack_push(t_pool());
            for (int i = 0; i < NSB; i++) { sb_init(&sbs[i]); kinds[i] = 'm'; }
            vp_ev("begin"); vp_end();
        } else if (vp_argv[0][0] == 'p' && strcmp(vp_argv[0], "prepend") && strcmp(vp_argv[0], "pkcs7")) do_ps();
        else if (vp_is("src")) do_ps();
        else do_sb();
    }
    for (int i = 0; i < NSB; i++) drop(i);
    mem_stack_pop(t_pool());
    mem_fifo_pool_delete(&fifo);
    free(src);
    free(tmp);
    free(tmp2);
    vp_done();
    return 0;
}
