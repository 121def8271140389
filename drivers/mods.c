/* Modules: eight modules whose constructors and destructors do what the script says. */
#include <lib-common/core.h>
#include <lib-common/unix.h>
#include <sys/wait.h>
#include "vp.h"

#define NM 8
enum { F_CTOR_REQ, F_DTOR_REL };
static module_t *mod[NM];
static int nested_req[NM][4], nested_req_n[NM];
static bool nested_run[NM];
static int dtor_res[NM];
static char args_g[16];

/* four methods of our own and those of the library */
MODULE_METHOD(VOID, DEPS_BEFORE, vp_vb);
MODULE_METHOD(VOID, DEPS_AFTER, vp_va);
MODULE_METHOD(INT, DEPS_BEFORE, vp_ib);
MODULE_METHOD(INT, DEPS_AFTER, vp_ia);
MODULE_METHOD(PTR, DEPS_BEFORE, vp_pb);
MODULE_METHOD(GENERIC, DEPS_AFTER, vp_ga);

/* log of method calls */
static struct { int meth, m; long arg; } calls[4096];
static int ncalls;
static void called(int meth, int m, long arg) { calls[ncalls].meth = meth; calls[ncalls].m = m; calls[ncalls++].arg = arg; }

static void emit_st(void)
{
    vp_ev("st");
    vp_arr("on"); for (int i = 0; i < NM; i++) if (mod[i] && module_is_loaded(mod[i])) vp_ai(i); vp_arr_end();
    vp_arr("ini"); for (int i = 0; i < NM; i++) if (mod[i] && module_is_initializing(mod[i])) vp_ai(i); vp_arr_end();
    vp_arr("shu"); for (int i = 0; i < NM; i++) if (mod[i] && module_is_shutting_down(mod[i])) vp_ai(i); vp_arr_end();
    vp_end();
}
static void emit_calls(int from)
{
    vp_arr("c");
    for (int i = from; i < ncalls; i++) { vp_sep(); fprintf(vp_out, "[%d,%d,%ld]", calls[i].meth, calls[i].m, calls[i].arg); }
    vp_arr_end();
}
static void do_run(int meth, int arg)
{
    ncalls = 0;
    switch (meth) {
      case 0: MODULE_METHOD_RUN_VOID(vp_vb); break;
      case 1: MODULE_METHOD_RUN_VOID(vp_va); break;
      case 2: MODULE_METHOD_RUN_INT(vp_ib, arg); break;
      case 3: MODULE_METHOD_RUN_INT(vp_ia, arg); break;
      case 4: MODULE_METHOD_RUN_PTR(vp_pb, &args_g[arg & 15]); break;
      case 5: MODULE_METHOD_RUN(vp_ga, (data_t){ .ptr = &args_g[arg & 15] }); break;
      case 6: module_on_term(arg); break;
    }
    vp_ev("run"); vp_i("k", meth); vp_i("arg", arg); emit_calls(0); vp_end();
}
static void do_req(int m)
{
    vp_ev("req"); vp_i("m", m); vp_end();
    module_require(mod[m]);
    vp_ev("reqend"); vp_i("m", m); vp_end();
    emit_st();
}
static void do_rel(int m)
{
    vp_ev("rel"); vp_i("m", m); vp_end();
    module_release(mod[m]);
    vp_ev("relend"); vp_i("m", m); vp_end();
    emit_st();
}
static int ctor(int m, void *arg)
{
    vp_ev("ctor"); vp_i("m", m); vp_i("arg", arg ? (char *)arg - args_g : -1); vp_end();
    emit_st();
    for (int i = 0; i < nested_req_n[m]; i++) do_req(nested_req[m][i]);
    if (nested_run[m]) do_run(m % 7, m);
    vp_ev("ctorend"); vp_i("m", m); vp_end();
    return 0;
}
static int dtor(int m)
{
    vp_ev("dtor"); vp_i("m", m); vp_end();
    emit_st();
    if (nested_run[m]) do_run(m % 7, m);
    for (int i = nested_req_n[m]; i-- > 0; ) do_rel(nested_req[m][i]);
    vp_ev("dtorend"); vp_i("m", m); vp_end();
    return dtor_res[m];
}
#define M(n) \
static int ctor##n(void *a) { return ctor(n, a); } \
static int dtor##n(void) { return dtor(n); } \
static void vb##n(void) { called(0, n, 0); } \
static void va##n(void) { called(1, n, 0); } \
static void ib##n(int a) { called(2, n, a); } \
static void ia##n(int a) { called(3, n, a); } \
static void pb##n(void *a) { called(4, n, (char *)a - args_g); } \
static void ga##n(data_t a) { called(5, n, (char *)a.ptr - args_g); } \
static void ot##n(int a) { called(6, n, a); } \
static void fp##n(void) { called(7, n, 0); } \
static void fo##n(int a) { called(8, n, a); } \
static void fc##n(void) { called(9, n, 0); }
M(0) M(1) M(2) M(3) M(4) M(5) M(6) M(7)
#define T(t, p) static t p##_t[NM] = { p##0, p##1, p##2, p##3, p##4, p##5, p##6, p##7 };
typedef int (*ctor_f)(void *); typedef int (*dtor_f)(void); typedef void (*v_f)(void); typedef void (*i_f)(int); typedef void (*p_f)(void *); typedef void (*g_f)(data_t);
T(ctor_f, ctor) T(dtor_f, dtor) T(v_f, vb) T(v_f, va) T(i_f, ib) T(i_f, ia) T(p_f, pb) T(g_f, ga) T(i_f, ot) T(v_f, fp) T(i_f, fo) T(v_f, fc)

static void implement(int m, int k)
{
    switch (k) {
      case 0: module_implement_method_void(mod[m], &vp_vb_method, vb_t[m]); break;
      case 1: module_implement_method_void(mod[m], &vp_va_method, va_t[m]); break;
      case 2: module_implement_method_int(mod[m], &vp_ib_method, ib_t[m]); break;
      case 3: module_implement_method_int(mod[m], &vp_ia_method, ia_t[m]); break;
      case 4: module_implement_method_ptr(mod[m], &vp_pb_method, pb_t[m]); break;
      case 5: module_implement_method_generic(mod[m], &vp_ga_method, ga_t[m]); break;
      case 6: module_implement_method_int(mod[m], &on_term_method, ot_t[m]); break;
      case 7: module_implement_method_void(mod[m], &at_fork_prepare_method, fp_t[m]); break;
      case 8: module_implement_method_int(mod[m], &at_fork_on_parent_method, fo_t[m]); break;
      case 9: module_implement_method_void(mod[m], &at_fork_on_child_method, fc_t[m]); break;
      default: vp_bad();
    }
}

static void do_fork(bool i)
{
    int fd[2], n, st;
    pid_t p;
    char c;

    if (pipe(fd) < 0) exit(3);
    fflush(vp_out);
    ncalls = 0;
    p = i ? ifork() : (fork)();
    if (p < 0) exit(3);
    if (p == 0) {
        for (int k = 0; k < ncalls; k++) { char b[2] = { calls[k].meth, calls[k].m }; if (write(fd[1], b, 2) != 2) _exit(1); }
        _exit(0);
    }
    close(fd[1]);
    vp_ev("fork"); vp_b("i", i);
    for (int k = 0; k < ncalls; k++) if (calls[k].meth == 8) calls[k].arg = calls[k].arg == p ? 1 : calls[k].arg == -1 ? -1 : 0;
    emit_calls(0);
    vp_arr("child");
    while ((n = read(fd[0], &c, 1)) == 1) {
        char m;
        if (read(fd[0], &m, 1) != 1) exit(3);
        vp_sep(); fprintf(vp_out, "[%d,%d,0]", c, m);
    }
    vp_arr_end();
    vp_end();
    close(fd[0]);
    waitpid(p, &st, 0);
}

int main(void)
{
    vp_init();
    while (vp_next()) {
        if (vp_is("new")) {
            /* new m dep : registers and implements a module */
            int m = vp_int(1), d = vp_int(2);
            char name[8];
            sprintf(name, "vpm%d", m);
            mod[m] = module_register(LSTR(name));
            module_implement(mod[m], ctor_t[m], dtor_t[m], d < 0 ? NULL : mod[d]);
            vp_ev("new"); vp_i("m", m); vp_i("d", d); vp_end();
        } else if (vp_is("dep")) {
            module_add_dep(mod[vp_int(1)], mod[vp_int(2)]);
            vp_ev("dep"); vp_i("m", vp_int(1)); vp_i("d", vp_int(2)); vp_end();
        } else if (vp_is("impl")) {
            implement(vp_int(1), vp_int(2));
            vp_ev("impl"); vp_i("m", vp_int(1)); vp_i("k", vp_int(2)); vp_end();
        } else if (vp_is("arg")) {
            module_provide(mod[vp_int(1)], &args_g[vp_int(2)]);
            vp_ev("arg"); vp_i("m", vp_int(1)); vp_i("a", vp_int(2)); vp_i("r", (char *)module_get_arg(mod[vp_int(1)]) - args_g); vp_end();
        } else if (vp_is("nest")) {
            /* nest m x : the constructor of m requires x, its destructor releases it */
            int m = vp_int(1);
            nested_req[m][nested_req_n[m]++] = vp_int(2);
        } else if (vp_is("nrun")) {
            nested_run[vp_int(1)] = vp_int(2);
        } else if (vp_is("fail")) {
            dtor_res[vp_int(1)] = vp_int(2);
        } else if (vp_is("require")) {
            do_req(vp_int(1));
        } else if (vp_is("release")) {
            do_rel(vp_int(1));
        } else if (vp_is("run")) {
            do_run(vp_int(1), vp_int(2));
        } else if (vp_is("fork")) {
            do_fork(vp_int(1));
        } else if (vp_is("coll")) {
            module_t *t[NM];
            lstr_t c = LSTR_NULL;
            int res, n = vp_argc - 1, w = -1;
            for (int i = 0; i < n; i++) t[i] = mod[vp_int(i + 1)];
            res = module_check_no_dependencies(t, n, &c);
            if (res < 0) w = c.s[c.len - 1] - '0';
            vp_ev("coll"); vp_arr("t"); for (int i = 0; i < n; i++) vp_ai(vp_int(i + 1)); vp_arr_end(); vp_i("r", w); vp_end();
        } else if (vp_is("dump")) {
            SB_8k(a); SB_8k(b);
            char *s, *sv = NULL;
            module_debug_dump_hierarchy(&a, &b);
            vp_ev("dump");
            vp_arr("mods");
            for (s = strtok_r(a.data, "\n", &sv); s; s = strtok_r(NULL, "\n", &sv)) { int m, l; if (sscanf(s, "vpm%d;%d", &m, &l) == 2) { vp_sep(); fprintf(vp_out, "[%d,%d]", m, l); } }
            vp_arr_end();
            vp_arr("deps");
            for (s = strtok_r(b.data, "\n", &sv); s; s = strtok_r(NULL, "\n", &sv)) { int m, l; if (sscanf(s, "vpm%d;vpm%d", &m, &l) == 2) { vp_sep(); fprintf(vp_out, "[%d,%d]", m, l); } }
            vp_arr_end();
            vp_end();
        } else if (vp_is("destroy")) {
            vp_ev("destroy"); vp_end();
            module_destroy_all();
            vp_ev("destroyend"); vp_end();
            break;
        } else vp_bad();
    }
    vp_done();
    _exit(0);
}
