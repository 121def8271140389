/* C42: strings with a length, and C strings. */
#include <lib-common/core.h>
#include <lib-common/unix.h>
#include "vp.h"

#define NR 4
static lstr_t regs[NR];
static char *lits[4096];
static int nlits;
static char dir[64];

static int lost[NR], nlost;
static size_t hexarg(int i, byte *b) { return vp_unhex(vp_arg(i), b, 60000); }
static char *sarg(int i)
{
    static byte b[1 << 16];
    size_t n = hexarg(i, b);
    if (memchr(b, 0, n)) {
        vp_bad();
    }
    return p_dupz((char *)b, n);
}
static int rarg(int i)
{
    int r = vp_int(i);
    if (r < 0 || r >= NR) {
        vp_bad();
    }
    return r;
}
static char pool(const lstr_t *s)
{
    return s->mem_pool == MEM_STATIC ? 'S' : s->mem_pool == MEM_LIBC ? 'L'
         : s->mem_pool == MEM_STACK ? 'T' : s->mem_pool == MEM_MMAP ? 'M' : 'X';
}
static void out_regs(void)
{
    vp_arr("lost");
    for (int i = 0; i < nlost; i++) {
        vp_ai(lost[i]);
    }
    vp_arr_end();
    vp_arr("regs");
    for (int i = 0; i < NR; i++) {
        lstr_t s = regs[i];
        vp_sep();
        fprintf(vp_out, "{\"null\":%s,\"len\":%d,\"pool\":\"%c\",\"z\":%s",
                s.s ? "false" : "true", s.len, pool(&s),
                (s.mem_pool == MEM_LIBC || s.mem_pool == MEM_STACK) && s.s && s.s[s.len] ? "false" : "true");
        vp_bytes("v", s.s, s.len);
        fputc('}', vp_out);
        vp_first = false;
    }
    vp_arr_end();
}
/* whether the string is a view on what the register owns */
static bool holds(int r, lstr_t s)
{
    lstr_t o = regs[r];
    return o.mem_pool != MEM_STATIC && o.s && s.s >= o.s && s.s <= o.s + o.len;
}
static void forget(int r, lstr_t s)
{
    for (int i = 0; i < NR; i++) {
        if (i != r && regs[i].s && regs[i].s >= s.s && regs[i].s <= s.s + s.len) {
            regs[i] = LSTR_NULL_V;
            lost[nlost++] = i;
        }
    }
}
/* what the register owns is about to be released: forget the views on it */
static void release(int r)
{
    lstr_t s = regs[r];
    if (s.mem_pool == MEM_STATIC || s.mem_pool == MEM_STACK || !s.s) {
        return;
    }
    forget(r, s);
}
static void assign(int r, lstr_t v)
{
    release(r);
    lstr_wipe(&regs[r]);
    regs[r] = v;
}
static mem_pool_t *mp(char c) { return c == 'T' ? t_pool() : NULL; }
static int sgn(int x) { return CMP(x, 0); }

static void scenario(void)
{
    t_scope;

    while (vp_next()) {
        int r;

        nlost = 0;
        if (vp_is("end")) {
            break;
        }
        if (vp_is("cmp")) {
            int ra = rarg(1), rb = rarg(2);
            lstr_t a = regs[ra], b = regs[rb];

            vp_ev("cmp"); vp_i("a", ra); vp_i("b", rb);
            vp_i("c", sgn(lstr_cmp(a, b))); vp_i("cp", sgn(lstr_cmp_p(&a, &b)));
            vp_i("ic", sgn(lstr_ascii_icmp(a, b))); vp_i("icp", sgn(lstr_ascii_icmp_p(&a, &b)));
            vp_b("eq", lstr_equal(a, b)); vp_b("ieq", lstr_ascii_iequal(a, b));
            vp_b("sw", lstr_startswith(a, b)); vp_b("ew", lstr_endswith(a, b));
            vp_b("isw", lstr_ascii_istartswith(a, b)); vp_b("iew", lstr_ascii_iendswith(a, b));
            vp_b("in", lstr_contains(a, b));
            vp_b("swc", lstr_startswithc(a, b.len ? b.s[0] : 'a')); vp_b("ewc", lstr_endswithc(a, b.len ? b.s[0] : 'a'));
            vp_arr("dl");
            for (int m = -1; m <= 6; m++) {
                vp_ai(lstr_dlevenshtein(a, b, m));
            }
            vp_arr_end();
            vp_b("uew", lstr_utf8_endswith(a, b)); vp_b("uiew", lstr_utf8_iendswith(a, b));
            vp_end();
            continue;
        }
        if (vp_is("like")) {
            int ra = rarg(1), rb = rarg(2);
            vp_ev("like"); vp_i("a", ra); vp_i("b", rb); vp_b("m", lstr_utf8_is_ilike(regs[ra], regs[rb])); vp_end();
            continue;
        }
        if (vp_is("about")) {
            static byte b[60000];
            int ra = rarg(1);
            lstr_t a = regs[ra];
            ctype_desc_t d;
            size_t n = hexarg(2, b);

            ctype_desc_build2(&d, (char *)b, n);
            vp_ev("about"); vp_i("a", ra); vp_bytes("set", b, n);
            vp_b("ct", lstr_match_ctype(a, &d)); vp_i("ul", lstr_utf8_strlen(a));
            vp_end();
            continue;
        }
        if (vp_is("cstr")) {
            char *s = sarg(1), *t = sarg(2), *w = p_strdup(s);
            const char *p = NULL;
            int sep = vp_int(3), n = vp_int(4), v;

            vp_ev("cstr"); vp_bytes("s", s, strlen(s)); vp_bytes("t", t, strlen(t)); vp_i("sep", sep); vp_i("n", n);
            vp_i("sk", skipspaces(s) - s); vp_i("ns", strnextspace(s) - s); vp_i("sb", skipblanks(s) - s);
            v = strstart(s, t, &p);
            vp_i("st", v ? p - s : -1); vp_b("st0", !!strstart(s, t, NULL));
            v = stristart(s, t, &p);
            vp_i("ist", v ? p - s : -1);
            p = stristr(s, t);
            vp_i("ss", p ? p - s : -1);
            vp_b("find", strfind(s, t, sep));
            p = strrtrim(w);
            vp_i("rt", p - w); vp_i("rtl", strlen(w));
            strcpy(w, s);
            vp_i("bi", buffer_increment(w, n)); vp_bytes("biv", w, strlen(w));
            strcpy(w, s);
            vp_i("bh", buffer_increment_hex(w, n)); vp_bytes("bhv", w, strlen(w));
            strcpy(w, s);
            vp_i("rp", str_replace(sep, '_', w)); vp_bytes("rpv", w, strlen(w));
            vp_end();
            p_delete(&s); p_delete(&t); p_delete(&w);
            continue;
        }
        if (vp_is("pstr")) {
            /* bounded copies in a buffer of exactly that size */
            char *s = sarg(1), *t = sarg(2);
            int size = vp_int(3), n = vp_int(4), k = 0;
            char *b = p_new_raw(char, MAX(size, 1));

            vp_ev("pstr"); vp_bytes("s", s, strlen(s)); vp_bytes("t", t, strlen(t)); vp_i("size", size); vp_i("n", n);
            memset(b, 'z', MAX(size, 1));
            vp_i("cp", pstrcpy(b, size, s)); vp_bytes("cpv", b, size > 0 ? strlen(b) : 0);
            vp_i("ct", pstrcat(b, size, t)); vp_bytes("ctv", b, size > 0 ? strlen(b) : 0);
            vp_i("cl", pstrcpylen(b, size, t, n)); vp_bytes("clv", b, size > 0 ? strlen(b) : 0);
            memset(b, 'z', MAX(size, 1));
            k = pstrrand(b, size, MIN(2, size), n);
            vp_i("rd", k);
            if (k >= 0) {
                vp_bytes("rdv", b + MIN(2, size), strlen(b + MIN(2, size)));
            }
            if (size > 0) {
                k = strrand(b, size, LSTR("xyz"));
                vp_i("ra", k); vp_bytes("rav", b, strlen(b));
            }
            vp_end();
            p_delete(&b); p_delete(&s); p_delete(&t);
            continue;
        }

        r = rarg(1);
        vp_arg(1);
        if (vp_is("lit")) {
            static byte b[60000];
            size_t n = hexarg(2, b);
            char *p;

            if (nlits >= countof(lits)) {
                vp_bad();
            }
            p = lits[nlits++] = p_dup((char *)b, MAX(n, 1));
            assign(r, LSTR_INIT_V(p, n));
            vp_ev("lit"); vp_i("r", r); vp_bytes("v", b, n);
        } else
        if (vp_is("null")) {
            release(r);
            lstr_wipe(&regs[r]);
            vp_ev("null"); vp_i("r", r);
        } else
        if (vp_is("sub")) {
            int a = rarg(2), off, len;
            lstr_t s = regs[a];
            off = vp_int(3) % (s.len + 1); len = vp_int(4) % (s.len - off + 1);
            if (a == r || !s.s || holds(r, s)) {
                continue;
            }
            assign(r, LSTR_INIT_V(s.s + off, len));
            vp_ev("sub"); vp_i("r", r); vp_i("a", a); vp_i("off", off); vp_i("n", len);
        } else
        if (vp_is("dup") || vp_is("dupc") || vp_is("rev") || vp_is("urev") || vp_is("tcase") || vp_is("trim") || vp_is("trunc")
        ||  vp_is("pkcs7") || vp_is("hexenc") || vp_is("hexdec") || vp_is("hhexdec") || vp_is("dupz"))
        {
            int a = rarg(2), k = vp_int(4);
            char c = *vp_arg(3);
            lstr_t v;

            if (a == r) {
                continue;
            }
            /* the old content of r is dropped first when a is not a view on it */
            release(r);
            lstr_wipe(&regs[r]);
            if (vp_is("dup")) {
                if (k == 1) {
                    v = c == 'T' ? t_lstr_dups(regs[a].s, regs[a].len) : lstr_dups(regs[a].s, regs[a].len);
                } else {
                    v = c == 'T' ? t_lstr_dup(regs[a]) : lstr_dup(regs[a]);
                }
            } else
            if (vp_is("dupz")) {
                /* the C string, then measured */
                const char *z = c == 'T' ? t_lstr_dupz(regs[a]) : lstr_dupz(regs[a]);
                v = mp_lstr_init(mp(c), z, strlen(z));
            } else
            if (vp_is("dupc"))   v = lstr_dupc(regs[a]); else
            if (vp_is("rev"))    v = c == 'T' ? t_lstr_dup_ascii_reversed(regs[a]) : lstr_dup_ascii_reversed(regs[a]); else
            if (vp_is("urev"))   v = c == 'T' ? t_lstr_dup_utf8_reversed(regs[a]) : lstr_dup_utf8_reversed(regs[a]); else
            if (vp_is("tcase"))  v = k == 0 ? t_lstr_ascii_tolower(regs[a]) : k == 1 ? t_lstr_ascii_toupper(regs[a]) : t_lstr_ascii_reverse(regs[a]); else
            if (vp_is("trim"))   { v = k == 0 ? lstr_ltrim(regs[a]) : k == 1 ? lstr_rtrim(regs[a]) : lstr_trim(regs[a]); v.mem_pool = MEM_STATIC; } else
            if (vp_is("trunc"))  v = lstr_utf8_truncate(regs[a], k); else
            if (vp_is("pkcs7"))  { v = lstr_trim_pkcs7_padding(regs[a]); v.mem_pool = MEM_STATIC; } else
            if (vp_is("hexenc")) v = t_lstr_hexencode(regs[a]); else
            if (vp_is("hexdec")) v = t_lstr_hexdecode(regs[a]);
            else                 v = t_lstr_human_hexdecode(regs[a]);
            regs[r] = v;
            vp_ev(vp_argv[0]); vp_i("r", r); vp_i("a", a); vp_i("k", k); vp_s("p", c == 'T' ? "T" : "L");
        } else
        if (vp_is("copy")) {
            int a = rarg(2), k = vp_int(4);
            char c = *vp_arg(3);

            if (c == 'S') {
                if (a == r) {
                    continue;
                }
                release(r);
                lstr_copyc(&regs[r], regs[a]);
            } else {
                lstr_t s = regs[a], old = regs[r];

                /* the source may be what the destination holds, or a part of it */
                if (c == 'T') {
                    if (k) t_lstr_copys(&regs[r], s.s, s.len); else t_lstr_copy(&regs[r], s);
                } else {
                    if (k) lstr_copys(&regs[r], s.s, s.len); else lstr_copy(&regs[r], s);
                }
                /* views on what was released are forgotten after */
                if (old.s && (old.mem_pool == MEM_LIBC || old.mem_pool == MEM_MMAP)) {
                    forget(r, old);
                }
            }
            vp_ev("copy"); vp_i("r", r); vp_i("a", a); vp_s("p", c == 'T' ? "T" : c == 'S' ? "S" : "L");
        } else
        if (vp_is("cat")) {
            int a = rarg(2), b = rarg(3), c3 = rarg(4);
            char c = *vp_arg(5);
            bool three = vp_int(6);
            lstr_t v;

            v = three ? (c == 'T' ? t_lstr_cat3(regs[a], regs[b], regs[c3]) : lstr_cat3(regs[a], regs[b], regs[c3]))
                      : (c == 'T' ? t_lstr_cat(regs[a], regs[b]) : lstr_cat(regs[a], regs[b]));
            assign(r, v);
            vp_ev("cat"); vp_i("r", r); vp_i("a", a); vp_i("b", b); vp_i("c", c3); vp_b("three", three);
            vp_s("p", c == 'T' ? "T" : "L");
        } else
        if (vp_is("persist")) {
            char c = *vp_arg(2);
            if (!regs[r].s) {
                continue;
            }
            if (regs[r].mem_pool == MEM_MMAP) {
                continue;
            }
            if (c == 'T') t_lstr_persists(&regs[r]); else lstr_persists(&regs[r]);
            vp_ev("persist"); vp_i("r", r); vp_s("p", c == 'T' ? "T" : "L");
        } else
        if (vp_is("transfer")) {
            int a = rarg(2);
            if (a == r || regs[a].mem_pool == MEM_MMAP || !regs[a].s) {
                continue;
            }
            /* a view on the destination cannot be transferred to it */
            if (regs[r].s && regs[r].mem_pool != MEM_STATIC && regs[a].s >= regs[r].s && regs[a].s <= regs[r].s + regs[r].len) {
                continue;
            }
            release(r);
            lstr_transfer(&regs[r], &regs[a]);
            vp_ev("transfer"); vp_i("r", r); vp_i("a", a);
        } else
        if (vp_is("transfersb")) {
            static byte b[60000];
            size_t n = hexarg(2, b);
            bool keep = vp_int(3);
            char k = *vp_arg(4);
            int skip = vp_int(5);
            sb_t sb;

            if (k == 'T') {
                t_sb_init(&sb, 16);
            } else {
                sb_init(&sb);
            }
            sb_addnc(&sb, skip, '#');
            sb_add(&sb, b, n);
            sb_skip(&sb, skip);
            release(r);
            lstr_transfer_sb(&regs[r], &sb, keep);
            vp_ev("transfersb"); vp_i("r", r); vp_bytes("v", b, n); vp_s("p", keep && k == 'T' ? "T" : "L");
            vp_b("fresh", sb.len == 0);
            sb_wipe(&sb);
        } else
        if (vp_is("inplace")) {
            int k = vp_int(2);
            bool mapped = false;
            for (int i = 0; i < NR; i++) {
                mapped |= regs[i].mem_pool == MEM_MMAP && holds(i, regs[r]);
            }
            if (mapped) {
                continue;
            }
            switch (k) {
              case 0: lstr_ascii_tolower(&regs[r]); break;
              case 1: lstr_ascii_toupper(&regs[r]); break;
              case 2: lstr_ascii_reverse(&regs[r]); break;
              case 3: lstr_xor(regs[r], LSTR("\x01\x02\x04"), regs[r]); break;
              default:
                lstr_obfuscate(regs[r], 12345, regs[r]);
                lstr_unobfuscate(regs[r], 12345, regs[r]);
                break;
            }
            vp_ev("inplace"); vp_i("r", r); vp_i("k", k);
        } else
        if (vp_is("file")) {
            static byte b[60000];
            size_t n = hexarg(2, b);
            int how = vp_int(3), prot = vp_int(4), ret, fds[2];
            int pr = prot == 0 ? PROT_READ : PROT_READ | PROT_WRITE;
            int fl = prot == 2 ? MAP_SHARED : MAP_PRIVATE;
            char path[128];
            lstr_t v = LSTR_NULL_V;

            snprintf(path, sizeof(path), "%s/f", dir);
            if (how <= 1) {
                unlink(path); /* it can still be mapped by a register */
                xwrite_file(path, b, n);
            }
            switch (how) {
              case 0: ret = lstr_init_from_file(&v, path, pr, fl); break;
              case 1: {
                int fd = open(path, O_RDWR);
                ret = lstr_init_from_fd(&v, fd, pr, fl);
                close(fd);
              } break;
              case 2:
                if (pipe(fds) < 0 || n > 30000 || write(fds[1], b, n) != (ssize_t)n) {
                    vp_bad();
                }
                close(fds[1]);
                ret = lstr_init_from_fd(&v, fds[0], pr, fl);
                close(fds[0]);
                break;
              case 3: ret = lstr_init_from_fd(&v, -1, pr, fl); break;
              default:
                snprintf(path, sizeof(path), "%s/none", dir);
                ret = lstr_init_from_file(&v, path, pr, fl);
                break;
            }
            if (ret >= 0) {
                assign(r, v);
            }
            vp_ev("file"); vp_i("r", r); vp_bytes("v", b, n); vp_i("how", how); vp_i("prot", prot); vp_i("ret", ret);
        } else {
            vp_bad();
        }
        out_regs();
        vp_end();
    }
    for (int i = 0; i < NR; i++) {
        lstr_wipe(&regs[i]);
    }
    while (nlits) {
        p_delete(&lits[--nlits]);
    }
    vp_ev("end"); vp_end();
}

int main(void)
{
    char cmd[128];

    vp_init();
    snprintf(dir, sizeof(dir), "/tmp/vp-lstr.XXXXXX");
    if (!mkdtemp(dir)) {
        return 3;
    }
    for (int i = 0; i < NR; i++) {
        regs[i] = LSTR_NULL_V;
    }
    while (vp_next()) {
        if (!vp_is("begin")) {
            vp_bad();
        }
        vp_ev("begin"); vp_end();
        scenario();
    }
    vp_done();
    snprintf(cmd, sizeof(cmd), "%s/f", dir);
    unlink(cmd);
    rmdir(dir);
    return 0;
}
