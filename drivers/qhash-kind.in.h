/* KIND: type name; T_INIT; KEY(i, kv) key argument; KID(k) / KVER(k): index and
 * version of a stored key; ISMAP: 1 for a map */
#define CAT_(a, b) a##b
#define CAT(a, b)  CAT_(a, b)
#if ISMAP
#  define F(op)  CAT(qm_, op)
#else
#  define F(op)  CAT(qh_, op)
#endif

static F(t)(KIND) CAT(tbl_, UNIQ);

static void CAT(obs_, UNIQ)(int32_t pos)
{
    F(t)(KIND) *h = &CAT(tbl_, UNIQ);
    vp_b("found", pos >= 0);
    if (pos >= 0) {
        vp_i("sk", KID(h->keys[pos]));
        vp_i("skv", KVER(h->keys[pos]));
#if ISMAP
        vp_i("sv", h->values[pos].a == h->values[pos].b ? h->values[pos].a : -7);
#else
        vp_i("sv", 0);
#endif
    } else {
        vp_i("sk", -1); vp_i("skv", 0); vp_i("sv", 0);
    }
}

static int CAT(put_, UNIQ)(F(t)(KIND) *h, int how, int k, int kv, int v)
{
    bool over = how & 1;
    if (how >= 4) {
        /* reserve, then fill */
        uint32_t pos;
#if ISMAP
        pos = (how & 2)
            ? qm_reserve_h(KIND, h, qm_hash(KIND, h, KEY(k, kv)), KEY(k, kv), over ? QHASH_OVERWRITE : 0)
            : qm_reserve(KIND, h, KEY(k, kv), over ? QHASH_OVERWRITE : 0);
        if (over || !(pos & QHASH_COLLISION))
            h->values[pos & ~QHASH_COLLISION] = (val_t){ .a = v, .b = v };
#else
        pos = (how & 2)
            ? qh_put_h(KIND, h, qh_hash(KIND, h, KEY(k, kv)), KEY(k, kv), over ? QHASH_OVERWRITE : 0)
            : qh_put(KIND, h, KEY(k, kv), over ? QHASH_OVERWRITE : 0);
#endif
        return pos & QHASH_COLLISION ? -1 : 0;
    }
#if ISMAP
    val_t val = { .a = v, .b = v };
    if (how == 0) return qm_add(KIND, h, KEY(k, kv), val);
    if (how == 1) return qm_replace(KIND, h, KEY(k, kv), val);
    if (how == 2) return qm_add_h(KIND, h, qm_hash(KIND, h, KEY(k, kv)), KEY(k, kv), val);
    return qm_replace_h(KIND, h, qm_hash(KIND, h, KEY(k, kv)), KEY(k, kv), val);
#else
    if (how == 0) return qh_add(KIND, h, KEY(k, kv));
    if (how == 1) return qh_replace(KIND, h, KEY(k, kv));
    if (how == 2) return qh_add_h(KIND, h, qh_hash(KIND, h, KEY(k, kv)), KEY(k, kv));
    return qh_replace_h(KIND, h, qh_hash(KIND, h, KEY(k, kv)), KEY(k, kv));
#endif
}

static int CAT(del_, UNIQ)(F(t)(KIND) *h, int how, int k)
{
    int32_t r;
    switch (how) {
      case 0: r = F(del_key)(KIND, h, KEY(k, 0)); break;
      case 1: r = F(del_key_safe)(KIND, h, KEY(k, 0)); break;
      case 2: r = F(del_key_h)(KIND, h, F(hash)(KIND, h, KEY(k, 0)), KEY(k, 0)); break;
      default: r = F(del_key_safe_h)(KIND, h, F(hash)(KIND, h, KEY(k, 0)), KEY(k, 0)); break;
    }
    return r >= 0 ? 0 : -1;
}

static void CAT(step_, UNIQ)(void)
{
    F(t)(KIND) *h = &CAT(tbl_, UNIQ);

    if (vp_is("reset")) {
        /* reset kind pattern cached pool minsize */
        bool cached = vp_int(3);
        int pool = vp_int(4), msz = vp_int(5);
        F(wipe)(KIND, h);
        if (pool) {
            mp_init_f(h, KIND, cached, g_pool);
        } else if (cached) {
            F(init_cached)(KIND, h);
        } else {
            F(init)(KIND, h);
        }
        if (msz) F(set_minsize)(KIND, h, msz);
        vp_ev("reset");
    } else if (vp_is("put")) {
        int how = vp_int(1), k = vp_int(2), kv = vp_int(3), v = vp_int(4);
        int r = CAT(put_, UNIQ)(h, how, k, kv, v);
        vp_ev("put"); vp_b("over", how & 1); vp_i("k", k);
        vp_i("kv", KHASVER ? kv : 1); vp_i("v", ISMAP ? v : 0); vp_i("r", r);
    } else if (vp_is("putr")) {
        /* putr how lo hi step kv v0 : key i gets value v0 + i */
        int how = vp_int(1), lo = vp_int(2), hi = vp_int(3), st = vp_int(4), kv = vp_int(5), v0 = vp_int(6);
        int n = 0;
        for (int k = lo; k <= hi; k += st)
            n += CAT(put_, UNIQ)(h, how, k, kv, v0 + k) == 0;
        vp_ev("putr"); vp_b("over", how & 1); vp_i("lo", lo); vp_i("hi", hi); vp_i("st", st);
        vp_i("kv", KHASVER ? kv : 1); vp_i("v0", ISMAP ? v0 : -1); vp_i("r", n);
    } else if (vp_is("find")) {
        int how = vp_int(1), k = vp_int(2);
        int32_t pos;
#if ISMAP
        val_t out = { 0, 0 };
        bool chk = true;
#endif
        switch (how) {
          case 0: pos = F(find)(KIND, h, KEY(k, 0)); break;
          case 1: pos = F(find_safe)(KIND, h, KEY(k, 0)); break;
          case 2: pos = F(find_h)(KIND, h, F(hash)(KIND, h, KEY(k, 0)), KEY(k, 0)); break;
          case 3: pos = F(find_safe_h)(KIND, h, F(hash)(KIND, h, KEY(k, 0)), KEY(k, 0)); break;
#if ISMAP
          case 4: {
            val_t *p = qm_get_def_p(KIND, h, KEY(k, 0), NULL);
            pos = p ? p - h->values : -1;
          } break;
          case 5: {
            const val_t *p = qm_get_def_p_safe(KIND, h, KEY(k, 0), NULL);
            pos = p ? p - h->values : -1;
          } break;
          case 6: pos = qm_fetch(KIND, h, KEY(k, 0), &out, ((val_t){ -9, -9 }));
            chk = pos < 0 ? out.a == -9 : out.a == h->values[pos].a; break;
          case 7: pos = qm_fetch_safe(KIND, h, KEY(k, 0), &out, ((val_t){ -9, -9 }));
            chk = pos < 0 ? out.a == -9 : out.a == h->values[pos].a; break;
#endif
          default: pos = F(find_safe)(KIND, h, KEY(k, 0)); break;
        }
        vp_ev("find"); vp_i("k", k); CAT(obs_, UNIQ)(pos);
#if ISMAP
        if (!chk) vp_i("badfetch", out.a);
#endif
    } else if (vp_is("del")) {
        int how = vp_int(1), k = vp_int(2);
        int r = CAT(del_, UNIQ)(h, how, k);
        vp_ev("del"); vp_i("k", k); vp_i("r", r);
    } else if (vp_is("delr")) {
        int how = vp_int(1), lo = vp_int(2), hi = vp_int(3), st = vp_int(4), n = 0;
        for (int k = lo; k <= hi; k += st)
            n += CAT(del_, UNIQ)(h, how, k) == 0;
        vp_ev("delr"); vp_i("lo", lo); vp_i("hi", hi); vp_i("st", st); vp_i("r", n);
    } else if (vp_is("findr")) {
        /* every key of a range, safe or not: the values in order, -1 when absent */
        int how = vp_int(1), lo = vp_int(2), hi = vp_int(3), st = vp_int(4);
        vp_ev("findr"); vp_i("lo", lo); vp_i("hi", hi); vp_i("st", st);
        vp_arr("vs");
        for (int k = lo; k <= hi; k += st) {
            int32_t pos = how ? F(find_safe)(KIND, h, KEY(k, 0)) : F(find)(KIND, h, KEY(k, 0));
#if ISMAP
            vp_ai(pos < 0 ? -1 : KID(h->keys[pos]) != k ? -2 : h->values[pos].a);
#else
            vp_ai(pos < 0 ? -1 : KID(h->keys[pos]) != k ? -2 : 0);
#endif
        }
        vp_arr_end();
    } else if (vp_is("iter")) {
        /* iter how mod rem : visits all, deleting keys whose index % mod == rem (mod 0: none) */
        int how = vp_int(1), mod = vp_int(2), rem = vp_int(3);
        vp_ev("iter"); vp_i("mod", mod); vp_i("rem", rem);
        vp_arr("ks");
#if ISMAP
        if (how == 1) {
            qm_for_each_key_value(KIND, key, value, h)
                vp_ai(value.a == value.b ? KID(key) : -3);
        } else
#endif
        if (how == 2) {
            F(for_each_key)(KIND, key, h)
                vp_ai(KID(key));
        } else {
            F(for_each_pos)(KIND, pos, h) {
                int id = KID(h->keys[pos]);
                vp_ai(id);
                if (mod && id % mod == rem) F(del_at)(KIND, h, pos);
            }
        }
        vp_arr_end();
    } else if (vp_is("clear")) {
        F(clear)(KIND, h);
        vp_ev("clear");
    } else if (vp_is("minsize")) {
        F(set_minsize)(KIND, h, vp_int(1));
        vp_ev("minsize");
    } else if (vp_is("seal")) {
        F(seal)(KIND, h);
        vp_ev("seal");
    } else if (vp_is("unseal")) {
        F(unseal)(KIND, h);
        vp_ev("unseal");
    } else {
        vp_bad();
    }
    vp_i("len", F(len)(KIND, h));
    vp_end();
}
#undef CAT_
#undef CAT
#undef F
#undef KIND
#undef UNIQ
#undef KEY
#undef KID
#undef KVER
#undef KHASVER
#undef ISMAP
