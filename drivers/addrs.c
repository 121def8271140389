/* C45: network addresses. */
#include <lib-common/core.h>
#include <lib-common/net.h>
#include "vp.h"

static size_t hexa(int i, byte *b, size_t max)
{
    return vp_unhex(vp_arg(i), b, max);
}
/* family, address or name, port */
static void getsu(int i, sockunion_t *su)
{
    byte b[128];
    int fam = vp_int(i);
    size_t n = hexa(i + 1, b, sizeof(b));

    p_clear(su, 1);
    if (fam == 4 && n == 4) {
        su->family = AF_INET;
        memcpy(&su->sin.sin_addr, b, 4);
        sockunion_setport(su, vp_int(i + 2));
    } else
    if (fam == 6 && n == 16) {
        su->family = AF_INET6;
        memcpy(&su->sin6.sin6_addr, b, 16);
        sockunion_setport(su, vp_int(i + 2));
    } else
    if (fam == 1 && n < sizeof(su->sunix.sun_path)) {
        su->family = AF_UNIX;
        memcpy(su->sunix.sun_path, b, n);
    } else {
        vp_bad();
    }
}
static void putsu(const char *k, const sockunion_t *su)
{
    fprintf(vp_out, ",\"%s\":{\"f\":%d", k, su->family == AF_INET ? 4 : su->family == AF_INET6 ? 6 : su->family == AF_UNIX ? 1 : 0);
    vp_i("p", sockunion_getport(su));
    switch (su->family) {
      case AF_INET: vp_bytes("a", &su->sin.sin_addr, 4); break;
      case AF_INET6: vp_bytes("a", &su->sin6.sin6_addr, 16); break;
      case AF_UNIX: vp_bytes("a", su->sunix.sun_path, sockunion_len(su) - offsetof(struct sockaddr_un, sun_path)); break;
    }
    fputc('}', vp_out);
}
static char *exact(const byte *b, size_t n, bool z)
{
    char *p = malloc(n + z ?: 1);
    memcpy(p, b, n);
    if (z) {
        p[n] = 0;
    }
    return p;
}

int main(void)
{
    vp_init();
    while (vp_next()) {
        t_scope;
        static byte b[4000];
        size_t n;

        if (vp_is("filter")) {
            /* text, is it valid, family, address, mask, port of the filter, peer */
            addr_filter_t f;
            sockunion_t su;
            byte a[16];
            char *s;
            int ret, valid = vp_int(2), fam = vp_int(3), mask = vp_int(5), port = vp_int(6);

            n = hexa(1, b, sizeof(b));
            s = exact(b, n, false);
            memset(&f, 0xa5, sizeof(f));
            ret = addr_filter_build(LSTR_INIT_V(s, n), &f);
            free(s);
            getsu(7, &su);
            vp_ev("filter"); vp_b("valid", valid); vp_i("ret", ret); vp_i("f", fam); vp_i("mask", mask); vp_i("port", port);
            vp_bytes("a", a, hexa(4, a, sizeof(a)));
            putsu("peer", &su);
            if (ret == 0) {
                f.port = port;
                vp_b("m", addr_filter_matches(&f, &su) == 0);
            }
        } else
        if (vp_is("parse")) {
            pstream_t host = ps_init(NULL, 0);
            in_port_t port = 0;
            int minport = vp_int(2), defport = vp_int(3), ret;
            char *s;

            n = hexa(1, b, sizeof(b));
            s = exact(b, n, false);
            ret = addr_parse_minport(ps_init(s, n), &host, &port, minport, defport);
            vp_ev("parse"); vp_bytes("s", s, n); vp_i("minport", minport); vp_i("defport", defport); vp_i("ret", ret);
            if (ret == 0) {
                vp_bytes("host", host.b, ps_len(&host));
                vp_i("port", port);
            }
            free(s);
        } else
        if (vp_is("eq")) {
            sockunion_t x, y;

            getsu(1, &x); getsu(4, &y);
            vp_ev("eq"); putsu("x", &x); putsu("y", &y);
            vp_b("eq", sockunion_equal(&x, &y)); vp_b("qe", sockunion_equal(&y, &x));
            vp_b("h", sockunion_hash(&x) == sockunion_hash(&y));
        } else
        if (vp_is("fmt")) {
            sockunion_t x, y;
            int len = -1;
            const char *s;
            lstr_t h;

            getsu(1, &x);
            s = t_addr_fmt(&x, &len);
            h = t_sockunion_gethost_lstr(&x);
            vp_ev("fmt"); putsu("x", &x); vp_bytes("s", s, strlen(s)); vp_i("len", len); vp_bytes("host", h.s, h.len);
            p_clear(&y, 1);
            if (x.family != AF_UNIX) {
                vp_i("ret", addr_resolve2("test", LSTR(s), 0, -1, &y, NULL, NULL, NULL));
                putsu("back", &y);
            }
        } else
        if (vp_is("url")) {
            http_url_t u;
            int ret, https = vp_int(2);
            char *s;

            n = hexa(1, b, sizeof(b));
            s = exact(b, n, true);
            memset(&u, 0xa5, sizeof(u));
            ret = parse_http_url(s, https, &u);
            vp_ev("url"); vp_bytes("s", s, n); vp_b("https", https); vp_i("ret", ret);
            if (ret == 0) {
                vp_bytes("user", u.user, strlen(u.user)); vp_bytes("pass", u.pass, strlen(u.pass));
                vp_bytes("host", u.host, strlen(u.host)); vp_i("port", u.port);
                vp_bytes("path", u.path, strlen(u.path)); vp_bytes("args", u.args, strlen(u.args));
                vp_bytes("noargs", u.path_without_args, strlen(u.path_without_args));
            }
            free(s);
        } else
        if (vp_is("slots")) {
            int rate = vp_int(1), nr = vp_int(2);
            unsigned *slots = p_new(unsigned, nr);

            net_rctl_init_slots(rate, nr, slots);
            vp_ev("slots"); vp_i("rate", rate); vp_i("n", nr);
            vp_arr("v");
            for (int i = 0; i < nr; i++) {
                vp_ai(slots[i]);
            }
            vp_arr_end();
            p_delete(&slots);
        } else {
            vp_bad();
        }
        vp_end();
    }
    vp_done();
    return 0;
}
