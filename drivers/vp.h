/* Helpers shared by the drivers: script lines on stdin, ndjson events on $VP_OUT. */
#ifndef VP_H
#define VP_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <inttypes.h>
#include <stdbool.h>

static FILE *vp_out;
static bool vp_first;
static char *vp_line;
static size_t vp_linesz;
#define VP_MAXARGS 4096
static char *vp_argv[VP_MAXARGS];
static int vp_argc;

static inline void vp_init_mode(const char *mode)
{
    const char *p = getenv("VP_OUT");
    vp_out = fopen(p ? p : "/dev/stdout", mode);
    if (!vp_out) { perror("VP_OUT"); exit(3); }
}
static inline void vp_init(void) { vp_init_mode("w"); }
static inline void vp_done(void) { if (fclose(vp_out)) exit(3); vp_out = NULL; }

/* next script line split on blanks; returns false at the end */
static inline bool vp_next(void)
{
    ssize_t n;
    while ((n = getline(&vp_line, &vp_linesz, stdin)) >= 0) {
        char *s = vp_line;
        vp_argc = 0;
        for (;;) {
            while (*s == ' ' || *s == '\n' || *s == '\t') *s++ = '\0';
            if (!*s) break;
            if (vp_argc >= VP_MAXARGS) { fprintf(stderr, "too many args\n"); exit(3); }
            vp_argv[vp_argc++] = s;
            while (*s && *s != ' ' && *s != '\n' && *s != '\t') s++;
        }
        if (vp_argc && vp_argv[0][0] != '#') return true;
    }
    return false;
}
static inline bool vp_is(const char *op) { return !strcmp(vp_argv[0], op); }
static inline const char *vp_arg(int i)
{
    if (i >= vp_argc) { fprintf(stderr, "missing arg %d of %s\n", i, vp_argv[0]); exit(3); }
    return vp_argv[i];
}
static inline long long vp_int(int i) { return strtoll(vp_arg(i), NULL, 0); }
static inline uint64_t vp_u64(int i) { return strtoull(vp_arg(i), NULL, 0); }
static inline void vp_bad(void) { fprintf(stderr, "unknown op %s\n", vp_argv[0]); exit(3); }

static inline void vp_ev(const char *op) { fprintf(vp_out, "{\"op\":\"%s\"", op); }
static inline void vp_i(const char *k, long long v) { fprintf(vp_out, ",\"%s\":%lld", k, v); }
static inline void vp_b(const char *k, bool v) { fprintf(vp_out, ",\"%s\":%s", k, v ? "true" : "false"); }
static inline void vp_str_(const char *s, size_t n)
{
    fputc('"', vp_out);
    for (size_t i = 0; i < n; i++) {
        unsigned char c = s[i];
        if (c == '"' || c == '\\') { fputc('\\', vp_out); fputc(c, vp_out); }
        else if (c < 0x20 || c >= 0x7f) fprintf(vp_out, "\\u%04x", c);
        else fputc(c, vp_out);
    }
    fputc('"', vp_out);
}
static inline void vp_sn(const char *k, const char *s, size_t n)
{
    fprintf(vp_out, ",\"%s\":", k);
    vp_str_(s, n);
}
static inline void vp_s(const char *k, const char *s) { vp_sn(k, s, strlen(s)); }
/* hexadecimal string of a 64 bit word: opaque token for the specification */
static inline void vp_x(const char *k, uint64_t v) { fprintf(vp_out, ",\"%s\":\"%" PRIx64 "\"", k, v); }
static inline void vp_arr(const char *k) { fprintf(vp_out, ",\"%s\":[", k); vp_first = true; }
static inline void vp_sep(void) { if (!vp_first) fputc(',', vp_out); vp_first = false; }
static inline void vp_ai(long long v) { vp_sep(); fprintf(vp_out, "%lld", v); }
static inline void vp_ax(uint64_t v) { vp_sep(); fprintf(vp_out, "\"%" PRIx64 "\"", v); }
static inline void vp_as(const char *s) { vp_sep(); vp_str_(s, strlen(s)); }
static inline void vp_arr_end(void) { fputc(']', vp_out); vp_first = false; }
static inline void vp_bytes(const char *k, const void *p, size_t n)
{
    const unsigned char *b = p;
    vp_arr(k);
    for (size_t i = 0; i < n; i++) vp_ai(b[i]);
    vp_arr_end();
}
static inline void vp_end(void) { fputs("}\n", vp_out); }

/* hex argument ("-" for empty) to bytes */
static inline size_t vp_unhex(const char *s, unsigned char *buf, size_t max)
{
    size_t n = 0;
    if (!strcmp(s, "-")) return 0;
    while (s[0] && s[1]) {
        unsigned v;
        if (n >= max) { fprintf(stderr, "hex too long\n"); exit(3); }
        sscanf(s, "%2x", &v);
        buf[n++] = v;
        s += 2;
    }
    return n;
}
#endif
