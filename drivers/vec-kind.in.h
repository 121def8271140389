/* One kind of vectors: VK (name), VT (type), MKV(int) -> VT, GETV(VT*) -> int (or -99999 when damaged). */
#define CAT_(a, b)  a##b
#define CAT(a, b)   CAT_(a, b)
#define F(n)        CAT(CAT(VK, _), n)
#define QF(op)      CAT(CAT(qv_, VN), op)
#define NVEC 3

static QV F(vec)[NVEC];

static void F(dump)(const char *k, QV *v)
{
    vp_arr(k);
    tab_for_each_ptr(e, v) {
        vp_ai(GETV(e));
    }
    vp_arr_end();
}

static void F(state)(int i)
{
    QV *v = &F(vec)[i];

    F(dump)("tab", v);
    vp_b("ok", v->len >= 0 && v->len <= v->size && (!v->tab || !((uintptr_t)v->tab % alignof(VT))));
    vp_end();
}

static void F(init)(int pool)
{
    static VT buf[NVEC][6];

    for (int i = 0; i < NVEC; i++) {
        switch (pool) {
          case 0: qv_init(&F(vec)[i]); break;
          case 1: t_qv_init(&F(vec)[i], 4); break;
          case 2: __qvector_init(&F(vec)[i].qv, buf[i], 0, countof(buf[i]), &mem_pool_static); break;
          case 3: mp_qv_init(the_fifo, &F(vec)[i], 0); break;
          default: exit(3);
        }
    }
}

static void F(wipe_all)(void)
{
    for (int i = 0; i < NVEC; i++) {
        qv_wipe(&F(vec)[i]);
    }
}

static int F(args)(int from, VT *out, int max)
{
    int n = 0;

    for (int i = from; i < vp_argc && n < max; i++) {
        out[n++] = MKV(vp_int(i));
    }
    return n;
}

static bool F(op)(void)
{
    static VT vals[8192];
    int i = vp_int(1);
    QV *v;

    if (i < 0 || i >= NVEC) {
        exit(3);
    }
    v = &F(vec)[i];
    vp_ev(vp_argv[0]);
    vp_i("v", i);

#define NUM(name, n)  int name = vp_int(n); vp_i(#name, name)
    if (vp_is("append")) {
        NUM(x, 2);
        if (x & 1) {
            qv_append(v, MKV(x));
        } else {
            VT e = MKV(x);
            qv_appendp(v, &e);
        }
    } else
    if (vp_is("insert")) {
        NUM(at, 2); NUM(x, 3);
        if (x & 1) {
            qv_insert(v, at, MKV(x));
        } else {
            VT e = MKV(x);
            qv_insertp(v, at, &e);
        }
    } else
    if (vp_is("push")) {
        NUM(x, 2);
        qv_push(v, MKV(x));
    } else
    if (vp_is("dup")) { /* append the element at a position of the vector itself */
        NUM(at, 2);
        qv_append(v, v->tab[at]);
    } else
    if (vp_is("pop")) {
        qv_pop(v);
    } else
    if (vp_is("remlast")) {
        qv_remove_last(v);
    } else
    if (vp_is("remove")) {
        NUM(at, 2);
        qv_remove(v, at);
    } else
    if (vp_is("skip")) {
        NUM(n, 2);
        qv_skip(v, n);
    } else
    if (vp_is("clip")) {
        NUM(n, 2);
        qv_clip(v, n);
    } else
    if (vp_is("shrink")) {
        NUM(n, 2);
        qv_shrink(v, n);
    } else
    if (vp_is("splice")) {
        int how = vp_int(2);
        NUM(at, 3); NUM(rm, 4);
        int n = F(args)(5, vals, countof(vals));
        VT *res;

        vp_arr("xs");
        for (int j = 0; j < n; j++) {
            vp_ai(GETV(&vals[j]));
        }
        vp_arr_end();
        switch (how) {
          case 0:
            res = qv_splice(v, at, rm, vals, n);
            break;
          case 1: /* left to the caller to fill */
            res = qv_splice(v, at, rm, NULL, n);
            if (n) {
                memcpy(res, vals, n * sizeof(VT));
            }
            break;
          case 2:
            res = __qv_splice(v, at, rm, n);
            if (n) {
                memcpy(res, vals, n * sizeof(VT));
            }
            break;
          case 3: /* lengths known at compile time */
            if (n == 0) {
                res = qv_splice(v, at, rm, NULL, 0);
            } else
            if (n == 1 && rm == 1) {
                res = qv_splice(v, at, 1, vals, 1);
            } else
            if (n == 1 && rm == 2) {
                res = qv_splice(v, at, 2, vals, 1);
            } else
            if (rm == 0) {
                res = qv_splice(v, at, 0, vals, n);
            } else
            if (n == 2) {
                res = qv_splice(v, at, rm, vals, 2);
            } else {
                res = qv_splice(v, at, rm, vals, n);
            }
            break;
          default:
            exit(3);
        }
        vp_b("res", res == v->tab + at);
    } else
    if (vp_is("extend")) {
        int n = F(args)(2, vals, countof(vals));

        vp_arr("xs");
        for (int j = 0; j < n; j++) {
            vp_ai(GETV(&vals[j]));
        }
        vp_arr_end();
        qv_extend(v, vals, n);
    } else
    if (vp_is("exttab")) {
        NUM(src, 2);
        qv_extend_tab(v, &F(vec)[src]);
    } else
    if (vp_is("copy")) {
        NUM(src, 2);
        qv_copy(v, &F(vec)[src]);
    } else
    if (vp_is("deepext")) {
        NUM(src, 2);
        QF(_deep_extend)(v, &F(vec)[src], ^(VT *a, const VT *b) { *a = *b; });
    } else
    if (vp_is("growlen0")) {
        NUM(n, 2);
        qv_growlen0(v, n);
    } else
    if (vp_is("growlen")) { /* n elements x, x+1, ... by qv_growlen */
        NUM(n, 2); NUM(x, 3);
        VT *w = qv_growlen(v, n);

        for (int j = 0; j < n; j++) {
            w[j] = MKV(x + j % 50);
        }
    } else
    if (vp_is("grow")) {
        NUM(n, 2);
        uint64_t pred = qv_grow_get_alloc_size(v, n);

        vp_i("pred", pred / sizeof(VT));
        vp_i("size0", v->size);
        if (vp_int(3)) {
            VT *w = qv_grow0(v, n);
            bool z = true;
            VT zero;

            p_clear(&zero, 1);
            for (int j = 0; j < n; j++) {
                z = z && !memcmp(&w[j], &zero, sizeof(VT));
            }
            vp_b("zero", z);
        } else {
            vp_b("zero", qv_grow(v, n) == v->tab + v->len);
        }
        vp_i("size1", v->size);
    } else
    if (vp_is("optimize")) {
        qv_optimize(v, vp_int(2), vp_int(3));
        vp_i("r1", vp_int(2)); vp_i("r2", vp_int(3));
        vp_i("size1", v->size);
    } else
    if (vp_is("clear")) {
        qv_clear(v);
    } else
    if (vp_is("wipe")) {
        qv_wipe(v);
    } else
    if (vp_is("sort")) {
        QF(_sort)(v, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); });
    } else
    if (vp_is("qsort")) {
        qv_qsort(v, &F(cmp));
    } else
    if (vp_is("uniq")) {
        static int dels[8192];
        static int ndels;

        ndels = 0;
        if (vp_int(2)) {
            QF(_uniq)(v, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); },
                        ^(VT *e) { dels[ndels++] = GETV(e); });
        } else {
            QF(_uniq)(v, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); }, NULL);
        }
        vp_b("dl", vp_int(2));
        vp_arr("dels");
        for (int j = 0; j < ndels; j++) {
            vp_ai(dels[j]);
        }
        vp_arr_end();
    } else
    if (vp_is("shuffle")) {
        qv_shuffle(v);
    } else
    if (vp_is("bisect")) {
        NUM(x, 2);
        bool found = !vp_int(3);
        VT e = MKV(x);
        int p = QF(_bisect)(v, e, &found, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); });

        vp_i("p", p); vp_b("found", found);
    } else
    if (vp_is("find")) {
        NUM(x, 2);
        bool sorted = vp_int(3);
        VT e = MKV(x);

        vp_b("sorted", sorted);
        vp_i("p", QF(_find)(v, e, sorted, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); }));
        vp_b("has", QF(_contains)(v, e, sorted, ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); }));
    } else
    if (vp_is("diff")) {
        NUM(w, 2);
        int mask = vp_int(3);
        QV o[3];

        for (int j = 0; j < 3; j++) {
            qv_init(&o[j]);
            if (vp_int(4)) {
                qv_append(&o[j], MKV(7));
            }
        }
        vp_i("mask", mask);
        vp_b("pre", vp_int(4));
        QF(_diff)(v, &F(vec)[w], mask & 1 ? &o[0] : NULL, mask & 2 ? &o[1] : NULL, mask & 4 ? &o[2] : NULL,
                    ^int(const VT *a, const VT *b) { return CMP(KEYV(a), KEYV(b)); });
        F(dump)("add", &o[0]);
        F(dump)("del", &o[1]);
        F(dump)("inter", &o[2]);
        F(dump)("tab2", &F(vec)[w]);
        for (int j = 0; j < 3; j++) {
            qv_wipe(&o[j]);
        }
    } else {
        return false;
    }
    F(state)(i);
    return true;
}

#undef NUM
#undef VK
#undef VN
#undef VT
#undef QV
#undef MKV
#undef GETV
#undef KEYV
#undef NVEC
#undef QF
#undef F
#undef CAT
#undef CAT_
