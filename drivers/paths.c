/* C41: paths. Registers hold paths; every operation prints what it gives. */
#include <lib-common/core.h>
#include "vp.h"

#define NR 3
static char *regs[NR];

static char *sarg(int i)
{
    static byte b[1 << 16];
    size_t n = vp_unhex(vp_arg(i), b, sizeof(b) - 1);
    if (memchr(b, 0, n)) {
        vp_bad();
    }
    return p_dupz((char *)b, n);
}
static void put(int r, const char *s) { char *old = regs[r]; regs[r] = p_strdup(s); p_delete(&old); }
static void strs(const char *k, const char *s) { vp_bytes(k, s, strlen(s)); }
/* a buffer of exactly \p len bytes: one byte too far is seen by ASan */
static char *room(int len, char fill) { char *b = p_new_raw(char, MAX(len, 1)); memset(b, fill, MAX(len, 1)); return b; }

int main(void)
{
    char cwd[PATH_MAX];
    vp_init();
    setenv("HOME", "/home/vp", 1);
    for (int i = 0; i < NR; i++) {
        regs[i] = p_strdup("");
    }
    while (vp_next()) {
        int r = vp_argc > 1 ? (int)vp_int(1) : 0;

        if (r < 0 || r >= NR) {
            vp_bad();
        }
        if (vp_is("set")) {
            char *s = sarg(2);
            put(r, s);
            vp_ev("set"); vp_i("r", r); strs("p", s); vp_end();
            p_delete(&s);
        } else
        if (vp_is("cwd")) {
            char *s = sarg(2);
            if (chdir(s) < 0 || !getcwd(cwd, sizeof(cwd))) {
                vp_bad();
            }
            vp_ev("cwd"); strs("p", cwd); vp_end();
            p_delete(&s);
        } else
        if (vp_is("simplify")) {
            char *b = p_strdup(regs[r]);
            int keep = vp_int(2), n;
            size_t len = strlen(b);

            /* "a/.." is replaced by ".", the result always fits */
            n = keep == 2 ? path_simplify(b) : path_simplify2(b, keep);
            vp_ev("simplify"); vp_i("r", r); vp_b("keep", keep == 1); vp_i("n", n);
            strs("p", b); vp_b("fit", strlen(b) <= len); vp_end();
            put(r, b);
            p_delete(&b);
        } else
        if (vp_is("join")) {
            char *s = sarg(2);
            int len = strlen(regs[r]) + 1 + vp_int(3), n;
            char *b = room(len, 'z');

            strcpy(b, regs[r]);
            n = path_join(b, len, s);
            vp_ev("join"); vp_i("r", r); strs("s", s); vp_i("len", len); vp_i("n", n);
            strs("p", b); vp_end();
            put(r, b);
            p_delete(&b); p_delete(&s);
        } else
        if (vp_is("dirname") || vp_is("basename") || vp_is("dirpart")) {
            int len = vp_int(2), n;
            char *b = room(len, 'z');

            n = vp_is("dirname") ? path_dirname(b, len, regs[r])
              : vp_is("basename") ? path_basename(b, len, regs[r])
              : path_dirpart(b, len, regs[r]);
            vp_ev(vp_argv[0]); vp_i("r", r); vp_i("len", len); vp_i("n", n);
            if (len > 0) {
                strs("p", b);
                put(r, b);
            } else {
                vp_b("same", b[0] == 'z');
            }
            vp_end();
            p_delete(&b);
        } else
        if (vp_is("parts")) {
            const char *s = regs[r], *f = path_filepart(s), *e = path_ext(s), *e0 = path_extnul(s);

            vp_ev("parts"); vp_i("r", r); vp_i("file", f - s);
            vp_i("ext", e ? e - s : -1); vp_i("ext0", e0 - s);
            vp_b("safe", path_is_safe(s)); vp_end();
        } else
        if (vp_is("extend")) {
            /* the suffix comes through the format, in one or several pieces */
            char *s = sarg(2);
            int how = vp_int(3), n;
            char *b = room(PATH_MAX, 'z');

            switch (how) {
              case 0: n = path_extend(b, regs[r], "%s", s); break;
              case 1: n = path_extend(b, regs[r], "%.1s%s", s, *s ? s + 1 : s); break;
              default: n = path_extend(b, regs[r], "%*pM", (int)strlen(s), s); break;
            }
            vp_ev("extend"); vp_i("r", r); strs("s", s); vp_i("n", n);
            if (n >= 0) {
                strs("p", b);
                put(r, b);
            }
            vp_end();
            p_delete(&b); p_delete(&s);
        } else
        if (vp_is("relative")) {
            int to = vp_int(2), n;
            char *b = room(PATH_MAX, 'z');

            n = path_relative_to(b, regs[r], regs[to]);
            vp_ev("relative"); vp_i("r", r); vp_i("to", to); vp_i("n", n);
            if (n >= 0) {
                strs("p", b);
                put(r, b);
            }
            vp_end();
            p_delete(&b);
        } else {
            vp_bad();
        }
    }
    vp_done();
    for (int i = 0; i < NR; i++) {
        p_delete(&regs[i]);
    }
    return 0;
}
