/* Driver of the string codecs: `OP KIND PRE IN ARGS...`
 * KIND: s (small on-stack buffer), m (heap buffer), b (big enough buffer); PRE: hex contents of the output buffer before the call;
 * IN: hex input, handed over in a heap block of exactly that size (address sanitizer build). */
#include <lib-common/core.h>
#include "vp.h"

static unsigned char pre[70000], raw[70000];
static size_t npre, nraw;
static int base;

/* exact-size copy of the input; nul: also a terminating zero */
static char *inbuf(bool nul)
{
    char *b = malloc(nraw + nul ?: 1);
    if (!nraw && !nul) {
        /* no readable byte at all: one-past-the-end pointer */
        return b + 1;
    }
    memcpy(b, raw, nraw);
    if (nul) {
        b[nraw] = '\0';
    }
    return b;
}
static void infree(char *b, bool nul) { free(!nraw && !nul ? b - 1 : b); }

static bool has0(void) { return memchr(raw, 0, nraw) != NULL; }

int main(void)
{
    vp_init();
    unsetenv("VP_NONE");
    setenv("VP_A", "alpha", 1);
    setenv("VP_E", "", 1);
    setenv("VP_D", "x$y\\z", 1);
    while (vp_next()) {
        SB(sb_small, 32);
        SB_8k(sb_big);
        sb_t sb_m;
        sb_t *sb;
        char *in;
        long long ret = 0;
        bool void_ret = false;
        bool nul = false;
        const char *op = vp_arg(0);
        char kind = vp_arg(1)[0];
        char variant = vp_argc > 4 ? vp_arg(4)[0] : 'a';
        lstr_t ls;

        sb_init(&sb_m);
        sb = kind == 's' ? &sb_small : kind == 'b' ? &sb_big : &sb_m;
        npre = vp_unhex(vp_arg(2), pre, sizeof(pre));
        nraw = vp_unhex(vp_arg(3), raw, sizeof(raw));
        sb_add(sb, pre, npre);
        base = sb->len;
        /* variant s: through the C string entry point, when there is one and the input has no zero byte */
        nul = variant == 's';
        if (nul && has0()) {
            nul = false;
            variant = 'a';
        }
        if (!strcmp(op, "togsm7") || !strcmp(op, "cmp")) {
            nul = true;
        }
        in = inbuf(nul);
        ls = LSTR_INIT_V(in, nraw);

#define CALLV(name)  do { void_ret = true; \
        if (variant == 's') sb_adds_##name(sb, in); \
        else if (variant == 'l') sb_add_lstr_##name(sb, ls); \
        else sb_add_##name(sb, in, nraw); } while (0)
#define CALLR(name)  do { \
        if (variant == 's') ret = sb_adds_##name(sb, in); \
        else if (variant == 'l') ret = sb_add_lstr_##name(sb, ls); \
        else ret = sb_add_##name(sb, in, nraw); } while (0)

        if (vp_is("urlenc"))          CALLV(urlencode);
        else if (vp_is("urldec"))     CALLV(urldecode);
        else if (vp_is("hex"))        CALLV(hex);
        else if (vp_is("unhex"))      CALLR(unhex);
        else if (vp_is("xmlesc"))     CALLV(xmlescape);
        else if (vp_is("xmlunesc"))   CALLR(xmlunescape);
        else if (vp_is("qpe"))        CALLV(qpe);
        else if (vp_is("unqpe"))      CALLV(unqpe);
        else if (vp_is("unquoted"))   CALLV(unquoted);
        else if (vp_is("unb64"))      CALLR(unb64);
        else if (vp_is("unb64url"))   CALLR(unb64url);
        else if (vp_is("expandenv"))  CALLR(expandenv);
        else if (vp_is("b64") || vp_is("b64url")) {
            int width = vp_int(5);
            bool url = vp_is("b64url");
            void_ret = true;
            if (variant == 'u') {
                sb_b64_ctx_t ctx;
                size_t off = 0;
                memset(&ctx, 0x5a, sizeof(ctx));
                sb_add_b64_start(sb, vp_int(6), width, &ctx);
                for (int a = 7; a < vp_argc; a++) {
                    size_t n = MIN((size_t)vp_int(a), nraw - off);
                    if (url) sb_add_b64url_update(sb, in + off, n, &ctx); else sb_add_b64_update(sb, in + off, n, &ctx);
                    off += n;
                }
                if (url) sb_add_b64url_update(sb, in + off, nraw - off, &ctx); else sb_add_b64_update(sb, in + off, nraw - off, &ctx);
                if (url) sb_add_b64url_finish(sb, &ctx); else sb_add_b64_finish(sb, &ctx);
            } else if (variant == 's') {
                if (url) sb_adds_b64url(sb, in, width); else sb_adds_b64(sb, in, width);
            } else if (variant == 'l') {
                if (url) sb_add_lstr_b64url(sb, ls, width); else sb_add_lstr_b64(sb, ls, width);
            } else {
                if (url) sb_add_b64url(sb, in, nraw, width); else sb_add_b64(sb, in, nraw, width);
            }
        } else if (vp_is("slashes") || vp_is("unslashes")) {
            char a[64], b[64];
            a[vp_unhex(vp_arg(5), (byte *)a, 63)] = 0;
            { size_t n = vp_unhex(vp_arg(6), (byte *)b, 63); b[n] = 0; }
            void_ret = true;
            if (vp_is("slashes")) {
                if (variant == 's') sb_adds_slashes(sb, in, a, b); else sb_add_slashes(sb, in, nraw, a, b);
            } else {
                if (variant == 's') sb_adds_unslashes(sb, in, a, b); else sb_add_unslashes(sb, in, nraw, a, b);
            }
        } else if (vp_is("csv")) {
            int sep = vp_int(5);
            void_ret = true;
            if (variant == 's') sb_adds_csvescape(sb, sep, in);
            else if (variant == 'l') sb_add_lstr_csvescape(sb, sep, ls);
            else sb_add_csvescape(sb, sep, in, nraw);
        } else if (vp_is("urldec_inplace")) {
            /* the buffer holds PRE then IN; decoded as a whole */
            void_ret = true;
            sb_add(sb, in, nraw);
            sb_urldecode(sb);
        } else if (vp_is("punystr")) {
            ret = sb_add_punycode_str(sb, in, nraw);
        } else if (vp_is("punyvec")) {
            uint32_t *v = malloc(nraw + 1);
            int n = nraw / 4;
            for (int i = 0; i < n; i++) v[i] = ((uint32_t)raw[4*i] << 24 | raw[4*i+1] << 16 | raw[4*i+2] << 8 | raw[4*i+3]);
            ret = sb_add_punycode_vec(sb, v, n);
            free(v);
        } else if (vp_is("idna")) {
            ret = sb_add_idna_domain_name(sb, in, nraw, vp_int(5));
        } else if (vp_is("fromlatin1")) { void_ret = true; sb_conv_from_latin1(sb, in, nraw); }
        else if (vp_is("fromlatin9")) { void_ret = true; sb_conv_from_latin9(sb, in, nraw); }
        else if (vp_is("tolatin1")) ret = sb_conv_to_latin1(sb, in, nraw, vp_int(5));
        else if (vp_is("toucs2le")) ret = sb_conv_to_ucs2le(sb, in, nraw);
        else if (vp_is("toucs2be")) ret = sb_conv_to_ucs2be(sb, in, nraw);
        else if (vp_is("toucs2hex")) ret = sb_conv_to_ucs2be_hex(sb, in, nraw);
        else if (vp_is("fromucs2be")) ret = sb_conv_from_ucs2be_hex(sb, in, nraw);
        else if (vp_is("fromucs2le")) ret = sb_conv_from_ucs2le_hex(sb, in, nraw);
        else if (vp_is("fromgsm")) ret = sb_conv_from_gsm_plan(sb, in, nraw, vp_int(5));
        else if (vp_is("fromgsmhex")) ret = sb_conv_from_gsm_hex(sb, in, nraw);
        else if (vp_is("togsm")) { void_ret = true; sb_conv_to_gsm(sb, in, nraw); }
        else if (vp_is("togsmhex")) { void_ret = true; sb_conv_to_gsm_hex(sb, in, nraw); }
        else if (vp_is("tocimd")) { void_ret = true; sb_conv_to_cimd(sb, in, nraw); }
        else if (vp_is("gsmok")) ret = sb_conv_to_gsm_isok(in, nraw, vp_int(5));
        else if (vp_is("togsm7")) ret = sb_conv_to_gsm7(sb, vp_int(5), in, vp_int(6), vp_int(7), vp_int(8));
        else if (vp_is("fromgsm7")) ret = sb_conv_from_gsm7(sb, in, vp_int(5), vp_int(6));
        else if (vp_is("lower")) ret = sb_add_utf8_tolower(sb, in, nraw);
        else if (vp_is("upper")) ret = sb_add_utf8_toupper(sb, in, nraw);
        else if (vp_is("normalize")) ret = sb_normalize_utf8(sb, in, nraw, vp_int(5));
        else if (vp_is("uchr")) {
            /* code point: encoders and decoders one at a time */
            int c = vp_int(5);
            sb_adduc(sb, c);
            ret = 0;
        } else if (vp_is("utf8")) {
            /* all the decoders on one text */
            int off = 0;
            vp_ev("utf8");
            vp_bytes("in", raw, nraw);
            vp_i("len", utf8_strnlen(in, nraw));
            vp_i("skip", utf8_skip_valid(in, in + nraw) - in);
            vp_arr("chars");
            for (;;) {
                int c = utf8_ngetc_at(in, nraw, &off);
                vp_ai(c);
                if (c < 0) break;
            }
            vp_arr_end();
            vp_i("off", off);
            {
                pstream_t ps = ps_init(in, nraw);
                vp_arr("pschars");
                for (;;) {
                    int c = ps_getuc(&ps);
                    vp_ai(c);
                    if (c < 0) break;
                }
                vp_arr_end();
                vp_i("psleft", ps_len(&ps));
            }
            vp_i("cl", nraw ? utf8_charlen(in, nraw) : -1);
            if (!has0()) {
                /* zero-terminated entry points */
                char *z = strndup((char *)raw, nraw);
                const char *p = z;
                vp_i("zlen", utf8_strlen(z));
                vp_arr("zchars");
                for (;;) {
                    bool last = !*p;
                    int c = utf8_getc(p, &p);
                    vp_ai(c);
                    if (c < 0 || last) break;
                }
                vp_arr_end();
                free(z);
            }
            vp_end();
            infree(in, nul);
            sb_wipe(&sb_m);
            continue;
        } else if (vp_is("hexc")) {
            /* strconv_hexencode / strconv_hexdecode with a bounded destination */
            int size = vp_int(5);
            char *d = malloc(MAX(size, 1));
            memset(d, 0x55, MAX(size, 1));
            vp_ev("hexc");
            vp_bytes("in", raw, nraw);
            vp_i("size", size);
            vp_i("ret", strconv_hexencode(size > 0 ? d : d + 1, size, in, nraw));
            vp_bytes("out", d, MAX(size, 0));
            vp_end();
            free(d);
            infree(in, nul);
            sb_wipe(&sb_m);
            continue;
        } else if (vp_is("hexd")) {
            int size = vp_int(5);
            char *d = malloc(MAX(size, 1));
            memset(d, 0x55, MAX(size, 1));
            vp_ev("hexd");
            vp_bytes("in", raw, nraw);
            vp_i("size", size);
            vp_i("ret", strconv_hexdecode(size > 0 ? d : d + 1, size, in, variant == 's' ? -1 : (int)nraw));
            vp_bytes("out", d, MAX(size, 0));
            vp_end();
            free(d);
            infree(in, nul);
            sb_wipe(&sb_m);
            continue;
        } else if (vp_is("cmp")) {
            /* IN against PRE */
            char *b = malloc(npre ?: 1);
            char *a = malloc(nraw ?: 1);
            memcpy(b, pre, npre);
            memcpy(a, raw, nraw);
            vp_ev("cmp");
            vp_bytes("in", raw, nraw);
            vp_bytes("pre", pre, npre);
            vp_i("cs", utf8_strcmp(a, nraw, b, npre, false));
            vp_i("ci", utf8_stricmp(a, nraw, b, npre, false));
            vp_i("css", utf8_strcmp(a, nraw, b, npre, true));
            vp_i("cis", utf8_stricmp(a, nraw, b, npre, true));
            vp_b("sw", utf8_str_startswith(a, nraw, b, npre));
            vp_b("isw", utf8_str_istartswith(a, nraw, b, npre));
            vp_b("eq", utf8_strequal(a, nraw, b, npre, false));
            vp_b("ieq", utf8_striequal(a, nraw, b, npre, false));
            vp_end();
            free(a);
            free(b);
            infree(in, nul);
            sb_wipe(&sb_m);
            continue;
        } else if (vp_is("chartab")) {
            /* per character functions on one code point */
            int c = vp_int(5);
            vp_ev("chartab");
            vp_i("c", c);
            vp_i("lo", unicode_tolower(c));
            vp_i("up", unicode_toupper(c));
            vp_i("gd", unicode_to_gsm7(c, -7, GSM_DEFAULT_PLAN));
            vp_i("ge", unicode_to_gsm7(c, -7, GSM_EXTENSION_PLAN));
            vp_i("gl", gsm7_charlen(c));
            vp_i("fg", c < 256 ? gsm7_to_unicode(c, -7) : -1);
            vp_i("hx", c < 256 ? hexdigit((char)c) : -1);
            vp_end();
            infree(in, nul);
            sb_wipe(&sb_m);
            continue;
        } else {
            vp_bad();
        }
        vp_ev(op);
        vp_bytes("pre", pre, npre);
        vp_bytes("in", raw, nraw);
        vp_bytes("out", sb->data, sb->len);
        vp_b("z", sb->data[sb->len] == '\0' && sb->len >= 0);
        if (!void_ret) vp_i("ret", ret); else vp_i("ret", 0);
        /* numeric arguments, as they are */
        vp_arr("args");
        if (vp_is("slashes") || vp_is("unslashes")) {
            vp_arr_end();
            { byte t[64]; size_t n = vp_unhex(vp_arg(5), t, 63); vp_bytes("a", t, n); n = vp_unhex(vp_arg(6), t, 63); vp_bytes("b", t, n); }
        } else {
            for (int a = 5; a < vp_argc; a++) vp_ai(vp_int(a));
            vp_arr_end();
        }
        vp_end();
        infree(in, nul);
        sb_wipe(&sb_m);
        sb_wipe(&sb_small);
        sb_wipe(&sb_big);
    }
    vp_done();
    return 0;
}
