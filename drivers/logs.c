/* Loggers: a tree of loggers, levels set by name, a handler that records, buffers. */
#include <lib-common/log.h>
#include "vp.h"

#define NL 16
static logger_t lg[NL];
static bool live[NL];
static char names[NL][16];

static struct { char name[128]; int level; bool silent; char *msg; int len; } hc[4096];
static int nhc;

__attr_printf__(2, 0)
static void handler(const log_ctx_t *ctx, const char *fmt, va_list va)
{
    SB_1k(sb);
    sb_addvf(&sb, fmt, va);
    snprintf(hc[nhc].name, sizeof(hc[nhc].name), "%.*s", ctx->logger_name.len, ctx->logger_name.s ?: "");
    hc[nhc].level = ctx->level;
    hc[nhc].silent = ctx->is_silent;
    hc[nhc].msg = memcpy(malloc(sb.len + 1), sb.data, sb.len);
    hc[nhc++].len = sb.len;
}
static void emit1(const char *name, int level, bool silent, const char *msg, int len)
{
    vp_sep();
    fputc('[', vp_out); vp_str_(name, strlen(name)); fprintf(vp_out, ",%d,%s,[", level, silent ? "true" : "false");
    for (int i = 0; i < len; i++) fprintf(vp_out, "%s%d", i ? "," : "", (unsigned char)msg[i]);
    fputs("]]", vp_out); vp_first = false;
}
static void emit_h(void)
{
    vp_arr("h");
    for (int i = 0; i < nhc; i++) { emit1(hc[i].name, hc[i].level, hc[i].silent, hc[i].msg, hc[i].len); free(hc[i].msg); }
    vp_arr_end();
    nhc = 0;
}
static logger_t *get(int i) { return i < 0 ? logger_get_root() : &lg[vp_int(i)] ; }
static logger_t *arg(int k) { return vp_int(k) < 0 ? logger_get_root() : &lg[vp_int(k)]; }

int main(void)
{
    static unsigned char buf[8192];
    (void)get;
    MODULE_REQUIRE(log);
    vp_init();
    log_set_handler(handler);
    vp_ev("init"); vp_i("dflt", logger_get_level(logger_get_root())); vp_end();
    while (vp_next()) {
        if (vp_is("new") || vp_is("static")) {
            /* new id parent name level flags */
            int id = vp_int(1);
            bool st = vp_is("static");
            logger_t *p = vp_int(2) < 0 ? NULL : &lg[vp_int(2)];
            snprintf(names[id], sizeof(names[id]), "%s", vp_arg(3));
            if (st) {
                lg[id] = (logger_t){ .is_static = true, .parent = p, .name = LSTR_INIT(names[id], (int)strlen(names[id])), .level = LOG_UNDEFINED,
                    .defined_level = LOG_UNDEFINED, .default_level = vp_int(4), .level_flags = vp_int(5), .default_level_flags = vp_int(5) };
            } else {
                logger_init(&lg[id], p, LSTR(vp_arg(3)), vp_int(4), vp_int(5));
            }
            live[id] = true;
            vp_ev("new"); vp_i("id", id); vp_i("p", vp_int(2)); vp_s("n", vp_arg(3)); vp_i("lv", vp_int(4)); vp_b("si", vp_int(5) & LOG_SILENT); vp_b("st", st); vp_end();
        } else if (vp_is("wipe")) {
            logger_wipe(&lg[vp_int(1)]);
            vp_ev("wipe"); vp_i("id", vp_int(1)); vp_end();
        } else if (vp_is("set")) {
            /* set name level flags */
            const char *n = strcmp(vp_arg(1), "-") ? vp_arg(1) : "";
            int r = logger_set_level(LSTR(n), vp_int(2), vp_int(3));
            vp_ev("set"); vp_s("n", n); vp_i("lv", vp_int(2)); vp_b("rec", vp_int(3) & LOG_RECURSIVE); vp_b("si", vp_int(3) & LOG_SILENT); vp_i("r", r); vp_end();
        } else if (vp_is("reset")) {
            const char *n = strcmp(vp_arg(1), "-") ? vp_arg(1) : "";
            int r = logger_reset_level(LSTR(n));
            vp_ev("set"); vp_s("n", n); vp_i("lv", -3); vp_b("rec", false); vp_b("si", false); vp_i("r", r); vp_end();
        } else if (vp_is("level")) {
            vp_ev("level"); vp_i("id", vp_int(1)); vp_i("r", logger_get_level(arg(1))); vp_b("ok", logger_has_level(arg(1), vp_int(2))); vp_i("lv", vp_int(2)); vp_end();
        } else if (vp_is("find")) {
            const char *n = strcmp(vp_arg(1), "-") ? vp_arg(1) : "";
            logger_t *l = logger_get_by_name(LSTR(n));
            vp_ev("find"); vp_s("n", n); vp_i("r", !l ? -2 : l == logger_get_root() ? -1 : l - lg); vp_end();
        } else if (vp_is("log")) {
            /* log id level how text... : 0 by level, 1 named macros, 2 scope with a cont per text */
            logger_t *l = arg(1);
            int level = vp_int(2), how = vp_int(3), r = 0, n;
            size_t tot = 0;
            static unsigned char all[65536];
            if (how < 2) {
                n = vp_unhex(vp_arg(4), buf, sizeof(buf));
                memcpy(all, buf, n); tot = n;
                if (how == 0) r = logger_log(l, level, "%.*s", n, buf);
                else switch (level) {
                  case LOG_ERR: r = logger_error(l, "%*pM", n, buf); break;
                  case LOG_WARNING: r = logger_warning(l, "%*pM", n, buf); break;
                  case LOG_NOTICE: r = logger_notice(l, "%*pM", n, buf); break;
                  case LOG_INFO: r = logger_info(l, "%*pM", n, buf); break;
                  case LOG_DEBUG: r = logger_debug(l, "%*pM", n, buf); break;
                  case LOG_TRACE: r = logger_trace(l, 0, "%*pM", n, buf); break;
                  case LOG_TRACE + 1: r = logger_trace(l, 1, "%*pM", n, buf); break;
                  case LOG_TRACE + 2: r = logger_trace(l, 2, "%*pM", n, buf); break;
                  default: r = logger_trace(l, level - LOG_TRACE, "%*pM", n, buf); break;
                }
            } else {
                switch (level) {
                  case LOG_ERR: logger_error_start(l); break;
                  case LOG_WARNING: logger_warning_start(l); break;
                  case LOG_NOTICE: logger_notice_start(l); break;
                  case LOG_INFO: logger_info_start(l); break;
                  case LOG_DEBUG: logger_debug_start(l); break;
                  default: logger_trace_start(l, level - LOG_TRACE); break;
                }
                for (int i = 4; i < vp_argc; i++) {
                    n = vp_unhex(vp_arg(i), buf, sizeof(buf));
                    memcpy(all + tot, buf, n); tot += n;
                    logger_cont("%*pM", n, buf);
                }
                logger_end(l);
                r = level <= LOG_WARNING ? -1 : 0;
            }
            vp_ev("log"); vp_i("id", vp_int(1)); vp_i("lv", level); vp_b("ml", how == 2); vp_bytes("m", all, tot); vp_i("r", r); emit_h(); vp_end();
        } else if (vp_is("bstart")) {
            if (vp_int(2) < 0) log_start_buffering(vp_int(1)); else log_start_buffering_filter(vp_int(1), vp_int(2));
            vp_ev("bstart"); vp_b("u", vp_int(1)); vp_i("f", vp_int(2) < 0 ? 1000000 : vp_int(2)); vp_end();
        } else if (vp_is("bstop")) {
            const qv_t(log_buffer) *v = log_stop_buffering();
            vp_ev("bstop"); vp_arr("b");
            tab_for_each_ptr(b, v) {
                char nm[128];
                snprintf(nm, sizeof(nm), "%.*s", b->ctx.logger_name.len, b->ctx.logger_name.s ?: "");
                emit1(nm, b->ctx.level, b->ctx.is_silent, b->msg.s, b->msg.len);
            }
            vp_arr_end(); vp_end();
        } else vp_bad();
    }
    vp_done();
    _exit(0);
}
