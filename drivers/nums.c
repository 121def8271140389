/* C31: numbers read from texts. */
#include <lib-common/core.h>
#include "vp.h"

static void num(const char *k, bool neg, unsigned long long mag)
{
    char b[32];
    int n = snprintf(b, sizeof(b), "%llu", mag);

    fprintf(vp_out, ",\"%s\":{\"neg\":%s,\"d\":[", k, neg ? "true" : "false");
    for (int i = 0; i < n && mag; i++) {
        fprintf(vp_out, "%s%d", i ? "," : "", b[i] - '0');
    }
    fputs("]}", vp_out);
}
static void snum(const char *k, long long v)
{
    num(k, v < 0, v < 0 ? -(unsigned long long)v : (unsigned long long)v);
}
static int err(int e)
{
    return e == 0 ? 0 : e == EINVAL ? 1 : e == ERANGE ? 2 : e == EDOM ? 3 : 9;
}

int main(void)
{
    vp_init();
    while (vp_next()) {
        static byte raw[4096];
        const char *f = vp_argv[0];
        int n = vp_unhex(vp_arg(1), raw, sizeof(raw) - 10);
        int extra = vp_int(2), base = vp_int(3), flags = vp_int(4);
        bool z = !strncmp(f, "str", 3) || !strcmp(f, "parse");
        bool lstr = !strncmp(f, "lstr", 4);
        /* what is after the text: nothing, or digits */
        int size = z ? n + 1 : n + extra;
        byte *b = malloc(MAX(size, 1));
        const void *endp = b;

        memcpy(b, raw, n);
        memset(b + n, z ? 0 : '7', size - n);
        errno = 0;
        vp_ev(f); vp_bytes("s", b, n); vp_i("base", base);
        if (!strcmp(f, "strtoip")) {
            snum("v", strtoip((char *)b, (const char **)&endp));
        } else
        if (!strcmp(f, "memtoip")) {
            snum("v", memtoip(b, n, (const byte **)&endp));
        } else
        if (!strcmp(f, "memtollp")) {
            snum("v", memtollp(b, n, (const byte **)&endp));
        } else
        if (!strcmp(f, "memtoullp")) {
            num("v", false, memtoullp(b, n, (const byte **)&endp));
        } else
        if (!strcmp(f, "memtollx") || !strcmp(f, "strtollx")) {
            int64_t o = 0;
            vp_i("ret", z ? strtoll_ext((char *)b, &o, (const char **)&endp, base) : memtoll_ext(b, n, &o, &endp, base));
            snum("v", o);
        } else
        if (!strcmp(f, "memtoullx") || !strcmp(f, "strtoullx")) {
            uint64_t o = 0;
            vp_i("ret", z ? strtoull_ext((char *)b, &o, (const char **)&endp, base) : memtoull_ext(b, n, &o, &endp, base));
            num("v", false, o);
        } else
        if (!strcmp(f, "strtolp")) {
            long o = 0, min = vp_int(5), max = vp_int(6);
            int ret = strtolp((char *)b, (const char **)&endp, base, &o, flags, min, max);
            vp_b("spaces", flags & STRTOLP_IGNORE_SPACES); vp_b("cend", flags & STRTOLP_CHECK_END);
            vp_b("empty", flags & STRTOLP_EMPTY_OK); vp_b("range", flags & STRTOLP_CHECK_RANGE);
            vp_b("clamp", flags & STRTOLP_CLAMP_RANGE);
            snum("min", min); snum("max", max);
            vp_i("ret", -err(-ret)); snum("v", o);
        } else
        if (lstr) {
            lstr_t s = LSTR_INIT_V((char *)b, n);
            int o32 = 0, ret;
            int64_t o = 0;
            uint64_t u = 0;
            uint32_t u32 = 0;

            errno = ENOENT;
            switch (f[4]) {
              case 'i': ret = lstr_to_int(s, &o32); o = o32; break;
              case 'l': ret = lstr_to_int64(s, &o); break;
              case 'u': ret = lstr_to_uint(s, &u32); u = u32; break;
              default: ret = lstr_to_uint64(s, &u); break;
            }
            vp_i("ret", ret);
            vp_b("kept", errno == ENOENT);
            if (f[4] == 'i' || f[4] == 'l') {
                snum("v", o);
            } else {
                num("v", false, u);
            }
        } else
        if (!strcmp(f, "parse")) {
            int64_t v = parse_number((char *)b);
            vp_b("bad", v == INT64_MIN);
            snum("v", v);
        } else {
            vp_bad();
        }
        vp_i("err", err(errno));
        vp_i("end", (const byte *)endp - b);
        vp_end();
        free(b);
    }
    vp_done();
    return 0;
}
