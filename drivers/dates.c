/* Driver of the dates (datetime.h): conversions, roundings, formats and parsers, in zones given by POSIX rules. */
#include <lib-common/datetime.h>
#include <lib-common/core.h>
#include <locale.h>
#include "vp.h"

static const char * const zones[] = {
    "UTC0", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3",
    "LHS-10:30LHD-11,M10.1.0,M4.1.0", "NFD3:30NFT2:30,M3.2.0,M11.1.0", "WMO0:30", "WWW0:15WWX-0:45,M4.1.1/1,M9.4.3/2",
};
static time_t fake_now = 1000000000;
/* the clock of the system, as seen by the code under test */
time_t time(time_t *p) { if (p) *p = fake_now; return fake_now; }
time_t lp_getsec(void) { return fake_now; }

static void pair(const char *k, time_t t)
{
    time_t d = t / 86400, s = t % 86400;
    if (s < 0) { s += 86400; d--; }
    vp_arr(k); vp_ai(d); vp_ai(s); vp_arr_end();
}
static time_t tin(int i) { return (time_t)vp_int(i) * 86400 + vp_int(i + 1); }
static void tvout(const char *k, struct timeval tv) { vp_arr(k); vp_ai(tv.tv_sec); vp_ai(tv.tv_usec); vp_arr_end(); }
static struct timeval tvin(int i) { return (struct timeval){ .tv_sec = vp_int(i), .tv_usec = vp_int(i + 1) }; }
static void tmin_(struct tm *tm, int i)
{
    p_clear(tm, 1);
    tm->tm_year = vp_int(i) - 1900; tm->tm_yday = vp_int(i + 1); tm->tm_hour = vp_int(i + 2); tm->tm_min = vp_int(i + 3);
}
static void tmouts(const char *k, int i)
{
    vp_arr(k); for (int j = 0; j < 4; j++) vp_ai(vp_int(i + j)); vp_arr_end();
}
static int zi;
static void end(void)
{
    const char *tz = getenv("TZ");
    vp_b("tzok", tz && strequal(tz, zones[zi]));
    vp_end();
}

int main(void)
{
    vp_init();
    setenv("TZ", zones[0], 1); tzset();
    while (vp_next()) {
        t_scope;

        if (vp_is("zone")) {
            zi = vp_int(1);
            setenv("TZ", zones[zi], 1); tzset();
            vp_ev("zone"); vp_i("z", zi); end();
        } else
        if (vp_is("now")) {
            fake_now = tin(1);
            vp_ev("now"); pair("t", fake_now); end();
        } else
        if (vp_is("round")) {
            /* round UNIT day sec arg */
            time_t t = tin(2), r = 0;
            int a = vp_int(4);
            const char *u = vp_arg(1);
            if (!strcmp(u, "curminute")) r = localtime_curminute(t); else
            if (!strcmp(u, "nextminute")) r = localtime_nextminute(t); else
            if (!strcmp(u, "curhour")) r = localtime_curhour(t); else
            if (!strcmp(u, "nexthour")) r = localtime_nexthour(t); else
            if (!strcmp(u, "curday")) r = localtime_curday(t); else
            if (!strcmp(u, "nextday")) r = localtime_nextday(t); else
            if (!strcmp(u, "addday")) r = localtime_addday(t, a); else
            if (!strcmp(u, "curweek")) r = localtime_curweek(t, a); else
            if (!strcmp(u, "nextweek")) r = localtime_nextweek(t, a); else
            if (!strcmp(u, "curmonth")) r = localtime_curmonth(t); else
            if (!strcmp(u, "nextmonth")) r = localtime_nextmonth(t); else
            if (!strcmp(u, "curyear")) r = localtime_curyear(t); else vp_bad();
            vp_ev("round"); vp_s("u", u); pair("t", t); vp_i("a", a); pair("r", r); end();
        } else
        if (vp_is("diffdays")) {
            time_t a = tin(1), b = tin(3);
            int r = time_diff_days(a, b);
            vp_ev("diffdays"); pair("t", a); pair("t2", b); vp_i("r", r); end();
        } else
        if (vp_is("tmdiff")) {
            struct tm a, b;
            tmin_(&a, 1); tmin_(&b, 5);
            vp_ev("tmdiff"); tmouts("a", 1); tmouts("b", 5);
            vp_i("d", tm_diff_days(&a, &b)); vp_i("h", tm_diff_hours(&a, &b)); vp_i("m", tm_diff_minutes(&a, &b)); end();
        } else
        if (vp_is("mday")) {
            int d = vp_int(1), m = vp_int(2), y = vp_int(3);
            vp_ev("mday"); vp_i("d", d); vp_i("m", m); vp_i("y", y); vp_b("r", is_mday_valid(d, m, y));
            vp_b("leap", year_is_leap_year(y)); vp_i("nleap", nb_leap_years_since_1900(y)); end();
        } else
        if (vp_is("strtotm")) {
            char buf[64];
            struct tm t;
            int n = vp_unhex(vp_arg(1), (void *)buf, sizeof(buf) - 1), r;
            time_t tt;
            char *s = malloc(n + 1);
            buf[n] = '\0';
            memcpy(s, buf, n + 1);
            memset(&t, 0, sizeof(t)); t.tm_year = 7; t.tm_mon = 7; t.tm_mday = 7; t.tm_hour = 5;
            r = strtotm(s, &t);
            free(s);
            s = malloc(n ?: 1); memcpy(s, buf, n);
            tt = lstrtotime(LSTR_INIT_V(s, n));
            free(s);
            vp_ev("strtotm"); vp_bytes("s", buf, n); vp_i("r", r);
            vp_arr("tm"); vp_ai(t.tm_year + 1900); vp_ai(t.tm_mon + 1); vp_ai(t.tm_mday); vp_ai(t.tm_hour); vp_arr_end();
            pair("t", tt); end();
        } else
        if (vp_is("fmt")) {
            /* fmt day sec msec zone|-1 */
            time_t t = tin(1);
            int ms = vp_int(3), z = vp_int(4);
            const char *tz = z < 0 ? NULL : zones[z];
            SB_1k(sb);
            char b[64];
            vp_ev("fmt"); pair("t", t); vp_i("ms", ms); vp_i("z", z);
            sb_adds(&sb, "x");
            memset(b, 'Z', sizeof(b)); time_fmt_iso8601(b, t); vp_bytes("g", b, strlen(b));
            lstr_t l = t_fmt_date_time_iso8601(t); vp_bytes("g2", l.s, l.len);
            sb_add_time_iso8601(&sb, t); sb_addc(&sb, '|');
            memset(b, 'Z', sizeof(b)); time_fmt_iso8601_msec(b, t, ms); vp_bytes("gm", b, strlen(b));
            sb_add_time_iso8601_msec(&sb, t, ms); sb_addc(&sb, '|');
            memset(b, 'Z', sizeof(b)); time_fmt_localtime_iso8601(b, t, tz); vp_bytes("l", b, strlen(b));
            sb_add_localtime_iso8601(&sb, t, tz); sb_addc(&sb, '|');
            memset(b, 'Z', sizeof(b)); time_fmt_localtime_iso8601_msec(b, t, ms, tz); vp_bytes("lm", b, strlen(b));
            sb_add_localtime_iso8601_msec(&sb, t, ms, tz);
            vp_bytes("sb", sb.data, sb.len);
            end();
        } else
        if (vp_is("parse")) {
            /* parse KIND hex ; KIND: a flags number, "any" or "str" */
            byte buf[256];
            const char *k = vp_arg(1);
            int n = vp_unhex(vp_arg(2), buf, sizeof(buf)), r;
            time_t t = 4242;
            char *s = malloc(n ?: 1);
            pstream_t ps;
            memcpy(s, buf, n);
            ps = ps_init(s, n);
            if (!strcmp(k, "any")) r = time_parse(&ps, &t);
            else r = time_parse_iso8601_flags(&ps, &t, atoi(k));
            vp_ev("parse"); vp_i("fl", !strcmp(k, "any") ? -1 : atoi(k));
            vp_b("in", (char *)ps.s >= s && ps.s_end == s + n && ps.s <= ps.s_end);
            vp_bytes("s", (void *)buf, n); vp_i("r", r < 0 ? -1 : r); pair("t", r < 0 ? 0 : t); end();
            free(s);
        } else
        if (vp_is("tv")) {
            struct timeval a = tvin(1), b = tvin(3), left = { 0 };
            int k = vp_int(5);
            bool e1, e2;
            vp_ev("tv"); tvout("a", a); tvout("b", b); vp_i("k", k);
            tvout("add", timeval_add(a, b)); tvout("sub", timeval_sub(a, b));
            tvout("addms", timeval_addmsec(a, k)); tvout("mul", timeval_mul(a, k)); tvout("div", timeval_div(a, k ?: 1));
            { long long d = timeval_diff64(&a, &b); struct timeval x = { .tv_sec = d / 1000000, .tv_usec = d % 1000000 };
              if (x.tv_usec < 0) { x.tv_usec += 1000000; x.tv_sec--; } tvout("d64", x); }
            { int64_t d = timeval_diffmsec(&a, &b); struct timeval x = { .tv_sec = d / 1000, .tv_usec = d % 1000 };
              if (x.tv_usec < 0) { x.tv_usec += 1000; x.tv_sec--; } tvout("dms", x); }
            { int64_t d = timeval_to_msec(a); struct timeval x = { .tv_sec = d / 1000, .tv_usec = d % 1000 };
              if (x.tv_usec < 0) { x.tv_usec += 1000; x.tv_sec--; } tvout("ms", x); }
            vp_i("d32", llabs(timeval_diff64(&a, &b)) < INT32_MAX ? timeval_diff(&a, &b) : 0);
            vp_arr("cmp"); vp_ai(timeval_is_eq0(a)); vp_ai(timeval_is_lt0(a)); vp_ai(timeval_is_le0(a)); vp_ai(timeval_is_gt0(a)); vp_ai(timeval_is_ge0(a)); vp_arr_end();
            e1 = is_expired(&a, &b, &left); e2 = is_expired(&a, &b, NULL);
            vp_b("e1", e1); vp_b("e2", e2); tvout("left", left);
            { const char *s = timeval_format(a, true); vp_bytes("dur", s, strlen(s)); }
            { const char *s = timeval_format(a, false); vp_bytes("date", s, strlen(s)); }
            end();
        } else
        if (vp_is("split")) {
            uint64_t s = (uint64_t)vp_int(1) * 86400 + vp_int(2);
            int p = vp_int(3);
            time_split_t r = split_time_interval(s);
            lstr_t en = t_get_time_split_p_lstr_en(s, p), fr = t_get_time_split_p_lstr_fr(s, p);
            vp_ev("split"); vp_i("d", vp_int(1)); vp_i("s", vp_int(2)); vp_i("p", p);
            vp_arr("r"); vp_ai(r.years); vp_ai(r.weeks); vp_ai(r.days); vp_ai(r.hours); vp_ai(r.minutes); vp_ai(r.seconds); vp_arr_end();
            vp_bytes("en", en.s, en.len); vp_bytes("fr", fr.s, fr.len);
            en = t_get_time_split_lstr_en(s); fr = t_get_time_split_lstr_fr(s);
            vp_bytes("en0", en.s, en.len); vp_bytes("fr0", fr.s, fr.len); end();
        } else
        if (vp_is("ftime")) {
            /* ftime day sec size locale current-locale */
            time_t t = tin(1);
            int size = vp_int(3), r, r2;
            const char *loc = vp_int(4) == 0 ? NULL : vp_int(4) == 1 ? "C" : vp_int(4) == 2 ? "C.UTF-8" : "no_SUCH";
            const char *cur = vp_int(5) ? "C.UTF-8" : "C";
            char *b = malloc(size ?: 1);
            bool same;
            setlocale(LC_TIME, cur);
            r = format_timestamp("%Y-%m-%d %H:%M:%S %w %j", t, loc, b, size);
            same = strequal(setlocale(LC_TIME, NULL), cur);
            vp_ev("ftime"); pair("t", t); vp_i("size", size); vp_i("loc", vp_int(4)); vp_i("r", r); vp_b("same", same);
            vp_bytes("b", b, r > 0 ? r : 0);
            r2 = format_timestamp("%s", t % 100000, loc, b, size);
            vp_i("sec", t % 100000); vp_i("r2", r2); vp_bytes("b2", b, r2 >= 0 && r2 < size ? r2 : 0); end();
            free(b);
            setlocale(LC_TIME, "C");
        } else
            vp_bad();
    }
    vp_done();
    return 0;
}
