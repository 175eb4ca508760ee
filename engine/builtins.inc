// Intrinsics, runtime functions, harness interface, OpenMP.  Included by engine.cpp.

typedef void (*BI) (State &S, Frame &f, Ins &x, std::vector<V> &a);
static std::unordered_map<std::string, BI> bi;

static void ret (State &S, Ins &x, V v = V (0))
{
    Frame &f = S.st.back ();
    if (x.dst >= 0) f.regs[x.dst] = v;
    advance (S);
}

static E boolOf (const V &v) // from an i1 or wider integer argument: nonzero
{
    if (!v.e) return mk_const (1, v.c & 1);
    if (v.e->w == 1) return v.e;
    return mk_extract (v.e, 0, 1);
}

static void throwNow (State &S) { unwind (S); }

static void refresh (State &S, E c, const char *what)
{
    // S.pc has just been extended by c (or c is about to be): find a model
    (void) what;
    if (S.modelReal && S.model && S.model->eval (c)) { addPc (S, c); return; }
    std::shared_ptr<Assign> m;
    int r = query (S, c, &m, false);
    if (r == 0) { ++st.assumed; endState (S); }
    addPc (S, c);
    if (r == 1) { S.model = m; S.modelReal = true; }
    else S.modelReal = false;
}

static V newSym (State &S, const std::string &name, unsigned w, bool fp)
{
    // one symbol per (input position, name): paths that share a prefix share the expressions
    static std::map<std::pair<size_t, std::string>, E> symAt;
    std::string key = name + ":" + std::to_string (w);
    auto k = std::make_pair (S.inputs.size (), key);
    auto it = symAt.find (k);
    if (it == symAt.end ())
    {
        u64 id;
        E e = mk_sym (w, name, &id);
        if (fp) fpSyms.insert (id);
        it = symAt.emplace (k, e).first;
    }
    V v; v.e = it->second;
    S.inputs.push_back ({name, w, v, fp});
    return v;
}

static u64 doMalloc (State &S, const V &n, unsigned cap = 4096)
{
    u64 sz = concretize (S, n, 64, "allocation size", cap);
    if (sz > (1ull << 28)) { incon (S, "allocation of " + std::to_string (sz) + " bytes"); endState (S); }
    Obj *o = newObj (S, sz, 2);
    return o->base;
}

static void doFree (State &S, const V &p)
{
    u64 a = concretize (S, p, 64, "freed pointer");
    if (!a) return;
    int i = findIdx (S, a);
    if (i < 0 || !S.mem[i] || S.memBase[i] != a || S.mem[i]->kind != 2)
        pathError (S, "memory", "invalid or double free of " + describe (S, a));
    freeObj (S, i);
    compactMem (S);
}

static V memcmpV (State &S, u64 a, u64 b, u64 n)
{
    E r = mk_const (32, 0);
    // concrete fast path
    Obj *oa = n ? access (S, a, n, false) : nullptr, *ob = n ? access (S, b, n, false) : nullptr;
    if (!n) return V (0);
    if (oa->s.empty () && ob->s.empty ())
    {
        int c = memcmp (&oa->c[a - oa->base], &ob->c[b - ob->base], n);
        return V ((u64) (uint32_t) (c < 0 ? -1 : c > 0));
    }
    for (u64 i = n; i-- > 0;)
    {
        E x = byteExpr (oa, a - oa->base + i), y = byteExpr (ob, b - ob->base + i);
        if (x == y) continue;
        if (is_const (x) && is_const (y)) { r = mk_const (32, x->lo < y->lo ? (u128) 0xffffffffu : 1); continue; }
        r = mk_ite (mk_eq (x, y), r, mk_ite (mk (ULT, 1, x, y), mk_const (32, 0xffffffffu), mk_const (32, 1)));
    }
    return mkV (r);
}

static void memsetM (State &S, u64 d, const V &v, u64 n)
{
    if (!n) return;
    Obj *o = access (S, d, n, true);
    if (S.par) race (S, d, n, true);
    u64 off = d - o->base;
    if (!v.e)
    {
        memset (&o->c[off], (int) (v.c & 0xff), n);
        if (!o->s.empty ()) for (u64 i = 0; i < n; ++i) o->s[off + i].e = nullptr;
        return;
    }
    E b = mk_extract (v.e, 0, 8);
    if (o->s.empty ()) o->s.resize (o->size, SB {nullptr, 0});
    for (u64 i = 0; i < n; ++i) o->s[off + i] = SB {b, 0};
}

static V fpun (Op op, unsigned w, const V &a) { return mkV (mk (op, w, toE (a, w))); }
static V ufv (unsigned id, const V &a) { return mkV (mk (UF, 64, toE (a, 64), nullptr, nullptr, id)); }
static V ufv2 (unsigned id, const V &a, const V &b) { return mkV (mk (UF, 64, toE (a, 64), toE (b, 64), nullptr, id)); }
static V fabsV (unsigned w, const V &a) { return mkV (mk (AND, w, toE (a, w), mk_const (w, mask64 (w) >> 1))); }

static V fminmax (unsigned w, const V &a, const V &b, bool mn)
{
    E x = toE (a, w), y = toE (b, w);
    E lt = mn ? mk (FOLT, 1, x, y) : mk (FOLT, 1, y, x);
    E r = mk_ite (mk (FUNO, 1, y, y), x, mk_ite (lt, x, y));
    return mkV (r);
}

// ---- OpenMP
static void parSwitch (State &S, int from)
{
    Par &P = *S.par;
    if (from >= 0) P.th[from].st.swap (S.st);
    int next = -1; bool anyLive = false;
    for (int t : P.order) { if (P.th[t].done) continue; anyLive = true; if (!P.th[t].barrier && next < 0) next = t; }
    if (!anyLive)
    {
        S.st.swap (P.th[P.nth].st); // saved caller stack
        S.par.reset (); S.tid = 0; S.lock = 0;
        advance (S);
        return;
    }
    if (next < 0)
    {
        for (auto &t : P.th) t.barrier = 0;
        P.sh.clear ();
        for (int t : P.order) if (!P.th[t].done) { next = t; break; }
    }
    S.tid = next;
    S.st.swap (P.th[next].st);
    S.lock = 0;
}

static void parThreadEnd (State &S)
{
    Par &P = *S.par;
    popFrame (S);
    int t = S.tid;
    P.th[t].done = true;
    parSwitch (S, t);
}

static u64 gtidCell (State &S, int tid)
{
    Obj *o = newObj (S, 4, 0);
    o->c[0] = tid;
    return o->base;
}

static void startPar (State &S, Ins &x, std::vector<V> &a)
{
    // __kmpc_fork_call(loc, nargs, fn, args...)
    if (S.par) throw Unsupported {"nested parallel region"};
    u64 fa = a[2].c;
    Fn *fn = fnAt.count (fa) ? fnAt[fa] : nullptr;
    if (!fn) throw Unsupported {"parallel region function"};
    int nth = S.nth;
    std::vector<std::vector<int>> orders;
    std::vector<int> o; for (int i = 0; i < nth; ++i) o.push_back (i);
    orders.push_back (o);
    if (S.raceOn && nth > 1) { std::vector<int> r (o.rbegin (), o.rend ()); orders.push_back (r); }
    auto setup = [&] (State &T, const std::vector<int> &ord) {
        T.par = std::make_shared<Par> ();
        Par &P = *T.par;
        P.nth = nth; P.order = ord; P.th.resize (nth + 1); P.disp.resize (nth);
        P.top0 = T.top;
        std::vector<Frame> save; save.swap (T.st);
        for (int t = 0; t < nth; ++t)
        {
            std::vector<V> args; args.push_back (V (gtidCell (T, t))); args.push_back (V (gtidCell (T, 0)));
            for (size_t i = 3; i < a.size (); ++i) args.push_back (a[i]);
            T.st.clear ();
            pushFrame (T, fn, args);
            T.st.back ().kind = 1;
            P.th[t].st.swap (T.st);
        }
        P.th[nth].st.swap (save); P.th[nth].done = true;
        T.st.clear ();
        parSwitch (T, -1);
    };
    if (orders.size () == 1) { setup (S, orders[0]); return; }
    for (auto &od : orders) { State *n = new State (S); setup (*n, od); work.push_back (n); }
    st.forks += orders.size () - 1;
    S.ended = true;
    throw Stop ();
}

static void staticInit (State &S, Frame &f, Ins &x, std::vector<V> &a, unsigned w, bool sg)
{
    // (loc, gtid, sched, plast, plower, pupper, pstride, incr, chunk)
    u64 sched = a[2].c;
    V lv = readMem (S, a[4].c, w), uv = readMem (S, a[5].c, w);
    u64 lo = concretize (S, lv, w, "loop bound"), hi = concretize (S, uv, w, "loop bound");
    int64_t inc = sext64 (concretize (S, a[7], w, "loop step"), w);
    int64_t chunk = sext64 (concretize (S, a[8], w, "chunk"), w);
    int nth = S.par ? S.par->nth : 1, t = S.par ? S.tid : 0;
    __int128 L = sg ? (__int128) sext64 (lo, w) : (__int128) (lo & mask64 (w)), H = sg ? (__int128) sext64 (hi, w) : (__int128) (hi & mask64 (w));
    __int128 trip = inc > 0 ? (H >= L ? (H - L) / inc + 1 : 0) : (L >= H ? (L - H) / (-inc) + 1 : 0);
    bool last; __int128 nl, nh, str;
    if (sched == 33 || sched == 45) // static chunked
    {
        if (chunk < 1) chunk = 1;
        nl = L + (__int128) t * chunk * inc; nh = nl + (__int128) (chunk - 1) * inc; str = (__int128) nth * chunk * inc;
        last = trip > 0 && ((trip - 1) / chunk) % nth == t;
    }
    else
    {
        __int128 c = trip / nth, r = trip % nth;
        __int128 beg = t < r ? t * (c + 1) : t * c + r, cnt = t < r ? c + 1 : c;
        if (trip == 0) { nl = L; nh = L - inc; }
        else if (cnt == 0) { nl = H + inc; nh = H; }
        else { nl = L + beg * inc; nh = L + (beg + cnt - 1) * inc; }
        str = trip * inc;
        last = cnt > 0 && beg + cnt == trip;
    }
    writeMem (S, a[4].c, w, V ((u64) nl & mask64 (w)));
    writeMem (S, a[5].c, w, V ((u64) nh & mask64 (w)));
    writeMem (S, a[6].c, w, V ((u64) str & mask64 (w)));
    if (a[3].c) writeMem (S, a[3].c, 32, V (last));
    ret (S, x);
}

static void dispInit (State &S, Frame &f, Ins &x, std::vector<V> &a, unsigned w)
{
    // (loc, gtid, sched, lb, ub, st, chunk)
    if (!S.par) throw Unsupported {"dispatch outside a parallel region"};
    auto &d = S.par->disp[S.tid];
    d.lo = concretize (S, a[3], w, "bound"); d.hi = concretize (S, a[4], w, "bound"); d.st = concretize (S, a[5], w, "step");
    d.chunk = concretize (S, a[6], w, "chunk"); if (!d.chunk || d.chunk > 1000000) d.chunk = 1;
    d.next = S.tid; d.active = true;
    ret (S, x);
}

static void dispNext (State &S, Frame &f, Ins &x, std::vector<V> &a, unsigned w, bool sg)
{
    // (loc, gtid, plast, plb, pub, pst)
    auto &d = S.par->disp[S.tid];
    __int128 L = sg ? (__int128) sext64 (d.lo, w) : (__int128) d.lo, H = sg ? (__int128) sext64 (d.hi, w) : (__int128) d.hi;
    __int128 inc = sext64 (d.st, w);
    __int128 b = L + (__int128) d.next * d.chunk * inc, e = b + (__int128) (d.chunk - 1) * inc;
    if (inc > 0 ? b > H : b < H) { d.active = false; ret (S, x, V (0)); return; }
    bool last = false;
    if (inc > 0 ? e >= H : e <= H) { e = H; last = true; }
    d.next += S.par->nth;
    if (a[2].c) writeMem (S, a[2].c, 32, V (last));
    writeMem (S, a[3].c, w, V ((u64) b & mask64 (w)));
    writeMem (S, a[4].c, w, V ((u64) e & mask64 (w)));
    writeMem (S, a[5].c, w, V ((u64) inc & mask64 (w)));
    ret (S, x, V (1));
}

#define B(name) bi[name] = [] (State &S, Frame &f, Ins &x, std::vector<V> &a)

static void initBuiltins ()
{
    // ---- harness interface
    B ("vs_sym") { std::string n = cstr (S, addrOf (S, a[0], "name")); V v = newSym (S, n, (unsigned) a[1].c, false); if (v.e->w < 64) v = mkV (mk_zext (v.e, 64)); ret (S, x, v); };
    B ("vs_double") { std::string n = cstr (S, addrOf (S, a[0], "name")); V v = newSym (S, n, 64, true); ret (S, x, v); };
    B ("vs_choose") {
        std::string n = cstr (S, addrOf (S, a[0], "name"));
        u64 lo = concretize (S, a[1], 64, "choose"), hi = concretize (S, a[2], 64, "choose");
        if (hi < lo) endState (S);
        if (hi == lo) { S.inputs.push_back ({n, 64, V (lo), false}); ret (S, x, V (lo)); return; }
        for (u64 k = hi + 1; k-- > lo;)
        {
            State *c = new State (S);
            c->inputs.push_back ({n, 64, V (k), false});
            ret (*c, x, V (k));
            work.push_back (c);
            if (k == 0) break;
        }
        st.forks += hi - lo;
        S.ended = true;
        throw Stop ();
    };
    B ("vs_assume") {
        E c = subst1 (S, boolOf (a[0]));
        if (is_const (c)) { if (!c->lo) { ++st.assumed; endState (S); } ret (S, x); return; }
        refresh (S, c, "assume");
        ret (S, x);
    };
    B ("vs_check") {
        ++st.checks; ++S.nchecks;
        E c = subst1 (S, boolOf (a[0]));
        if (is_const (c) && c->lo) { ++st.checksConst; ret (S, x); return; }
        std::string m = cstr (S, addrOf (S, a[1], "name"));
        ++st.checksSolver;
        if (is_const (c)) { pathError (S, "check", m); return; }
        E nc = mk_not (c);
        std::shared_ptr<Assign> mod;
        int r = S.modelReal && S.model && S.model->eval (nc) ? 1 : -1;
        if (r == 1) mod = S.model;
        else
        {
            parking = phase1;
            r = query (S, nc, &mod, true);
            parking = false;
        }
        if (r == 1) recordViolation (S, "check", m, mod.get (), true);
        else if (r >= 2) incon (S, "undecided: " + m);
        if (r != 0)
        {
            if (viols.size () >= opt.maxViol) endState (S);
            refresh (S, c, "check");
        }
        ret (S, x);
    };
    B ("vs_ne") {
        // bit difference as an obligation for the solver: not folded away by normal forms
        if (!a[0].e && !a[1].e) { ret (S, x, V (a[0].c != a[1].c)); return; }
        E e = mk_eq_raw (toE (a[0], 64), toE (a[1], 64));
        ret (S, x, mkV (mk_zext (mk_not (e), 64)));
    };
    B ("vs_fail") { std::string m = cstr (S, addrOf (S, a[0], "name")); ++st.checks; ++st.checksSolver; ++S.nchecks; pathError (S, "check", m); };
    B ("vs_observe") { std::string m = cstr (S, addrOf (S, a[0], "name")); S.obs.push_back ({m, a[1]}); ret (S, x); };
    B ("vs_reach") { S.reached.push_back (cstr (S, addrOf (S, a[0], "name"))); ret (S, x); };
    B ("vs_is_symbolic") { bool s = a[0].e && !is_const (subst1 (S, a[0].e)); ret (S, x, V (s)); };
    B ("vs_concretize") { u64 v = concretize (S, a[0], 64, "vs_concretize"); ret (S, x, V (v)); };
    B ("vs_case") { ret (S, x, V ((u64) opt.cs)); };
    B ("vs_tier") { ret (S, x, V ((u64) opt.tier)); };
    B ("vs_native") { ret (S, x, V (0)); };
    B ("vs_race") { S.raceOn = a[0].c; ret (S, x); };
    B ("vs_threads") { S.nth = (int) a[0].c; ret (S, x); };
    B ("vs_must_terminate") { S.termOn = true; S.stepLimit = S.steps + a[0].c; ret (S, x); };
    B ("vs_terminated") { S.termOn = false; S.stepLimit = 0; ret (S, x); };
    B ("vs_stop") { (void) f; (void) x; pathDone (S); };
    B ("vs_print") { fprintf (stderr, "vs_print: %s %s\n", cstr (S, addrOf (S, a[0], "name")).c_str (), a[1].e ? expr_str (a[1].e).c_str () : std::to_string (a[1].c).c_str ()); ret (S, x); };

    // ---- memory
    B ("vs_malloc") { u64 p = doMalloc (S, a[0]); ret (S, x, V (p)); };
    B ("malloc") { u64 p = doMalloc (S, a[0]); ret (S, x, V (p)); };
    B ("calloc") {
        u64 n = concretize (S, a[0], 64, "calloc"), m = concretize (S, a[1], 64, "calloc");
        u64 p = doMalloc (S, V (n * m)); ret (S, x, V (p)); };
    B ("realloc") {
        u64 o = concretize (S, a[0], 64, "realloc"), n = concretize (S, a[1], 64, "realloc");
        u64 p = doMalloc (S, V (n));
        if (o) { int i = findIdx (S, o); if (i < 0 || !S.mem[i] || S.memBase[i] != o) pathError (S, "memory", "realloc of an invalid pointer"); u64 os = S.mem[i]->size; copyMem (S, p, o, std::min (os, n)); doFree (S, V (o)); }
        ret (S, x, V (p)); };
    for (const char *n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"}) B (n) { doFree (S, a[0]); ret (S, x); };
    auto mc = [] (State &S, Frame &f, Ins &x, std::vector<V> &a) {
        u64 n = concretize (S, a[2], 64, "memcpy size"), d = n ? addrOf (S, a[0], "memcpy") : 0, s = n ? addrOf (S, a[1], "memcpy") : 0;
        copyMem (S, d, s, n);
        ret (S, x, a[0]);
    };
    bi["memcpy"] = mc; bi["memmove"] = mc;
    B ("memset") { u64 n = concretize (S, a[2], 64, "memset size"); if (n) memsetM (S, addrOf (S, a[0], "memset"), a[1], n); ret (S, x, a[0]); };
    auto mcmp = [] (State &S, Frame &f, Ins &x, std::vector<V> &a) {
        u64 n = concretize (S, a[2], 64, "memcmp size");
        V r = n ? memcmpV (S, addrOf (S, a[0], "memcmp"), addrOf (S, a[1], "memcmp"), n) : V (0);
        ret (S, x, r);
    };
    bi["memcmp"] = mcmp; bi["bcmp"] = mcmp;
    B ("vs_strtod") { // (const char *, size_t *used)
        // bytes up to the first one that no number contains: what follows stays symbolic
        std::string t; u64 from = addrOf (S, a[0], "strtod");
        while (t.size () < 100000)
        {
            u64 c = concretize (S, readMem (S, from + t.size (), 8), 8, "number text");
            if (!(isalnum ((int) c) || c == '.' || c == '+' || c == '-' || c == '(' || c == ')' || c == '_' || (c >= 9 && c <= 13) || c == ' ')) break;
            if ((isspace ((int) c)) && t.find_first_not_of (" \t\n\v\f\r") != std::string::npos) break;
            t += (char) c;
        }
        char *e; double d = strtod (t.c_str (), &e);
        writeMem (S, addrOf (S, a[1], "strtod"), 64, V ((u64) (e - t.c_str ())));
        u64 b; memcpy (&b, &d, 8); ret (S, x, V (b)); };
    B ("vs_fmt") { // (buf[400], bits, prec, mode)
        u64 b = concretize (S, a[1], 64, "fmt"), p = concretize (S, a[2], 32, "fmt"), m = concretize (S, a[3], 32, "fmt");
        double d; memcpy (&d, &b, 8);
        char buf[400]; int n = fmt_double (buf, sizeof buf, d, (int) p, (int) m);
        for (int i = 0; i <= n; ++i) writeMem (S, addrOf (S, a[0], "fmt") + i, 8, V ((u64) (unsigned char) buf[i]));
        ret (S, x, V ((u64) (unsigned) n)); };
    B ("vs_round") { // (bits, prec + 1000 * mode): the value read back after printing
        if (!a[0].e) { u64 k = concretize (S, a[1], 32, "round"); double d; memcpy (&d, &a[0].c, 8); char buf[500]; fmt_double (buf, sizeof buf, d, k % 1000, k / 1000); d = strtod (buf, nullptr); u64 b; memcpy (&b, &d, 8); ret (S, x, V (b)); return; }
        ret (S, x, mkV (mk (UF, 64, a[0].e, mk_zext (toE (a[1], 32), 64), nullptr, UF_ROUND))); };
    B ("vs_hash") { // (ptr, len, seed)
        u64 n = concretize (S, a[1], 64, "hash length");
        if (opt.constHash) { ret (S, x, V (0)); return; } // every value collides
        bool sym = a[2].e; std::vector<E> bs;
        Obj *o = n ? access (S, a[0].c, n, false) : nullptr;
        for (u64 i = 0; i < n; ++i) { E b = byteExpr (o, a[0].c - o->base + i); if (!is_const (b)) sym = true; bs.push_back (b); }
        if (!sym)
        {
            std::string s; for (E b : bs) s += (char) b->lo;
            ret (S, x, V ((u64) std::_Hash_bytes (s.data (), s.size (), a[2].c))); return;
        }
        E h = toE (a[2], 64);
        for (u64 i = 0; i < n;)
        {
            E v = nullptr; u64 k = 0;
            for (; k < 8 && i + k < n; ++k) v = v ? mk_concat (bs[i + k], v) : bs[i + k];
            h = mk (UF, 64, h, mk_zext (v, 64), nullptr, UF_HASH);
            i += k;
        }
        ret (S, x, mkV (h)); };

    // ---- exceptions and language support
    B ("__cxa_allocate_exception") { u64 p = doMalloc (S, a[0]); ret (S, x, V (p)); };
    B ("__cxa_free_exception") { ret (S, x); };
    B ("__cxa_throw") { S.excTi[a[0].c] = a[1].c; S.pendExc = a[0].c; S.pendTi = a[1].c; throwNow (S); };
    B ("__cxa_begin_catch") { S.caught.push_back ({a[0].c, S.excTi[a[0].c]}); ret (S, x, a[0]); };
    B ("__cxa_end_catch") { if (!S.caught.empty ()) S.caught.pop_back (); ret (S, x); };
    B ("__cxa_get_exception_ptr") { ret (S, x, a[0]); };
    B ("__cxa_rethrow") { if (S.caught.empty ()) pathError (S, "terminate", "rethrow without an exception"); S.pendExc = S.caught.back ().first; S.pendTi = S.caught.back ().second; throwNow (S); };
    B ("_Unwind_Resume") { S.pendExc = a[0].c; S.pendTi = S.excTi[a[0].c]; throwNow (S); };
    B ("__cxa_atexit") { ret (S, x, V (0)); };
    B ("__cxa_thread_atexit") { ret (S, x, V (0)); };
    B ("__cxa_guard_acquire") { V v = readMem (S, a[0].c, 8); ret (S, x, V (v.c == 0)); };
    B ("__cxa_guard_release") { writeMem (S, a[0].c, 8, V (1)); ret (S, x); };
    B ("__cxa_guard_abort") { ret (S, x); };
    B ("__cxa_pure_virtual") { pathError (S, "crash", "pure virtual call"); };
    B ("_ZSt9terminatev") { pathError (S, "terminate", "std::terminate"); };
    B ("abort") { pathError (S, "abort", "abort"); };
    B ("__assert_fail") { pathError (S, "assert", "assertion failed: " + cstr (S, addrOf (S, a[0], "name"))); };
    B ("__cxa_throw_bad_array_new_length") { throw Unsupported {"bad_array_new_length"}; };
    B ("exit") { S.obs.push_back ({"exit", a[0]}); pathDone (S); };
    B ("_exit") { S.obs.push_back ({"exit", a[0]}); pathDone (S); };
    B ("__dynamic_cast") {
        u64 p = a[0].c; if (!p) { ret (S, x, V (0)); return; }
        u64 vp = readMem (S, p, 64).c; u64 ti = readMem (S, vp - 8, 64).c; int64_t top = (int64_t) readMem (S, vp - 16, 64).c;
        ret (S, x, V (tiMatch (S, ti, a[2].c) ? p + top : 0)); };
    B ("__gxx_personality_v0") { throw Unsupported {"personality"}; };

    // ---- math
#define M1(n, id) B (n) { ret (S, x, ufv (id, a[0])); };
    M1 ("sin", UF_SIN) M1 ("cos", UF_COS) M1 ("tan", UF_TAN) M1 ("exp", UF_EXP) M1 ("log", UF_LOG) M1 ("log2", UF_LOG2) M1 ("log10", UF_LOG10)
    M1 ("sinl", UF_SIN) M1 ("cosl", UF_COS) M1 ("logl", UF_LOG) M1 ("log2l", UF_LOG2) M1 ("log10l", UF_LOG10) M1 ("expl", UF_EXP)
    M1 ("atan", UF_ATAN) M1 ("asin", UF_ASIN) M1 ("acos", UF_ACOS) M1 ("cbrt", UF_CBRT)
    B ("pow") { ret (S, x, ufv2 (UF_POW, a[0], a[1])); };
    B ("atan2") { ret (S, x, ufv2 (UF_ATAN2, a[0], a[1])); };
    B ("hypot") { ret (S, x, ufv2 (UF_HYPOT, a[0], a[1])); };
    B ("fmod") { ret (S, x, mkV (mk (FREM, 64, toE (a[0], 64), toE (a[1], 64)))); };
    B ("sqrt") { ret (S, x, fpun (FSQRT, 64, a[0])); };
    B ("sqrtf") { ret (S, x, fpun (FSQRT, 32, a[0])); };
    B ("floor") { ret (S, x, fpun (FFLOOR, 64, a[0])); };
    B ("ceil") { ret (S, x, fpun (FCEIL, 64, a[0])); };
    B ("trunc") { ret (S, x, fpun (FTRUNC, 64, a[0])); };
    B ("round") { ret (S, x, fpun (FROUND, 64, a[0])); };
    B ("rint") { ret (S, x, fpun (FRINT, 64, a[0])); };
    B ("nearbyint") { ret (S, x, fpun (FRINT, 64, a[0])); };
    B ("fabs") { ret (S, x, fabsV (64, a[0])); };
    B ("fmin") { ret (S, x, fminmax (64, a[0], a[1], true)); };
    B ("fmax") { ret (S, x, fminmax (64, a[0], a[1], false)); };
    auto lr = [] (State &S, Frame &f, Ins &x, std::vector<V> &a) { ret (S, x, mkV (mk (FPTOSI, 64, toE (fpun (FROUND, 64, a[0]), 64)))); };
    bi["lround"] = lr; bi["llround"] = lr;
    auto li = [] (State &S, Frame &f, Ins &x, std::vector<V> &a) { ret (S, x, mkV (mk (FPTOSI, 64, toE (fpun (FRINT, 64, a[0]), 64)))); };
    bi["lrint"] = li; bi["llrint"] = li;
    B ("modf") { V t = fpun (FTRUNC, 64, a[0]); writeMem (S, addrOf (S, a[1], "modf"), 64, t); ret (S, x, mkV (mk (FSUB, 64, toE (a[0], 64), toE (t, 64)))); };

    // ---- OpenMP
    B ("__kmpc_fork_call") { startPar (S, x, a); };
    B ("__kmpc_push_num_threads") { ret (S, x); };
    B ("__kmpc_global_thread_num") { ret (S, x, V ((u64) S.tid)); };
    B ("omp_get_thread_num") { ret (S, x, V ((u64) S.tid)); };
    B ("omp_get_num_threads") { ret (S, x, V ((u64) (S.par ? S.par->nth : 1))); };
    B ("omp_get_max_threads") { ret (S, x, V ((u64) S.nth)); };
    B ("omp_set_num_threads") { ret (S, x); };
    B ("__kmpc_for_static_init_4") { staticInit (S, f, x, a, 32, true); };
    B ("__kmpc_for_static_init_4u") { staticInit (S, f, x, a, 32, false); };
    B ("__kmpc_for_static_init_8") { staticInit (S, f, x, a, 64, true); };
    B ("__kmpc_for_static_init_8u") { staticInit (S, f, x, a, 64, false); };
    B ("__kmpc_for_static_fini") { ret (S, x); };
    B ("__kmpc_dispatch_init_4") { dispInit (S, f, x, a, 32); };
    B ("__kmpc_dispatch_init_4u") { dispInit (S, f, x, a, 32); };
    B ("__kmpc_dispatch_init_8") { dispInit (S, f, x, a, 64); };
    B ("__kmpc_dispatch_init_8u") { dispInit (S, f, x, a, 64); };
    B ("__kmpc_dispatch_next_4") { dispNext (S, f, x, a, 32, true); };
    B ("__kmpc_dispatch_next_4u") { dispNext (S, f, x, a, 32, false); };
    B ("__kmpc_dispatch_next_8") { dispNext (S, f, x, a, 64, true); };
    B ("__kmpc_dispatch_next_8u") { dispNext (S, f, x, a, 64, false); };
    for (const char *n : {"__kmpc_dispatch_fini_4", "__kmpc_dispatch_fini_4u", "__kmpc_dispatch_fini_8", "__kmpc_dispatch_fini_8u"}) B (n) { ret (S, x); };
    B ("__kmpc_barrier") {
        if (!S.par) { ret (S, x); return; }
        ret (S, x);
        int t = S.tid; S.par->th[t].barrier = 1;
        parSwitch (S, t); };
    B ("__kmpc_critical") { S.lock |= 1u << (1 + (a[2].c >> 4) % 29); ret (S, x); };
    B ("__kmpc_end_critical") { S.lock &= ~(1u << (1 + (a[2].c >> 4) % 29)); ret (S, x); };
    B ("__kmpc_reduce") { S.lock |= 1; ret (S, x, V (1)); };
    B ("__kmpc_reduce_nowait") { S.lock |= 1; ret (S, x, V (1)); };
    B ("__kmpc_end_reduce") { S.lock &= ~1u; ret (S, x); };
    B ("__kmpc_end_reduce_nowait") { S.lock &= ~1u; ret (S, x); };
    B ("__kmpc_single") { ret (S, x, V (S.tid == (S.par ? S.par->order[0] : 0))); };
    B ("__kmpc_end_single") { ret (S, x); };
    B ("__kmpc_master") { ret (S, x, V (S.tid == 0)); };
    B ("__kmpc_end_master") { ret (S, x); };
    B ("__kmpc_masked") { ret (S, x, V (S.tid == 0)); };
    B ("__kmpc_end_masked") { ret (S, x); };
    B ("__kmpc_flush") { ret (S, x); };
    B ("__kmpc_serialized_parallel") { ret (S, x); };
    B ("__kmpc_end_serialized_parallel") { ret (S, x); };
}

static bool intrinsic (State &S, Frame &f, Ins &x, const IntrinsicInst *I, std::vector<V> &a)
{
    const unsigned w = x.w;
    auto un = [&] (std::function<V (const V &)> g) { for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = g (a[k]); ++f.pc; return true; };
    auto bin = [&] (std::function<V (const V &, const V &)> g) { for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = g (a[k], a[x.leaves + k]); ++f.pc; return true; };
    switch (I->getIntrinsicID ())
    {
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
        case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_end: case Intrinsic::donothing: case Intrinsic::var_annotation:
        case Intrinsic::sideeffect: case Intrinsic::vaend:
            ++f.pc; return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: f.regs[x.dst] = V (0); ++f.pc; return true;
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::ssa_copy: case Intrinsic::ptr_annotation:
            f.regs[x.dst] = a[0]; ++f.pc; return true;
        case Intrinsic::load_relative: {
            u64 at = addrOf (S, a[0], "table"), off = concretize (S, a[1], 64, "table index");
            u64 r = concretize (S, readMem (S, at + off, 32), 32, "table entry");
            f.regs[x.dst] = V (at + (u64) (int64_t) (int32_t) r); ++f.pc; return true; }
        case Intrinsic::is_constant: f.regs[x.dst] = V (0); ++f.pc; return true;
        case Intrinsic::objectsize: f.regs[x.dst] = V (~0ull & mask64 (w)); ++f.pc; return true;
        case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: {
            u64 n = concretize (S, a[2], 64, "memcpy size");
            if (n) { u64 d = addrOf (S, a[0], "memcpy"), s = addrOf (S, a[1], "memcpy"); copyMem (S, d, s, n); }
            ++f.pc; return true;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            u64 n = concretize (S, a[2], 64, "memset size");
            if (n) memsetM (S, addrOf (S, a[0], "memset"), a[1], n);
            ++f.pc; return true;
        }
        case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: {
            unsigned ow = x.ow[0];
            bool sg = I->getIntrinsicID () == Intrinsic::smul_with_overflow || I->getIntrinsicID () == Intrinsic::sadd_with_overflow || I->getIntrinsicID () == Intrinsic::ssub_with_overflow;
            bool mul = I->getIntrinsicID () == Intrinsic::umul_with_overflow || I->getIntrinsicID () == Intrinsic::smul_with_overflow;
            bool sub = I->getIntrinsicID () == Intrinsic::usub_with_overflow || I->getIntrinsicID () == Intrinsic::ssub_with_overflow;
            unsigned ew = mul ? ow * 2 : ow + 1;
            if (ew > 128) throw Unsupported {"overflow intrinsic width"};
            E p = sg ? mk_sext (toE (a[0], ow), ew) : mk_zext (toE (a[0], ow), ew);
            E q = sg ? mk_sext (toE (a[1], ow), ew) : mk_zext (toE (a[1], ow), ew);
            Op o = mul ? MUL : sub ? SUB : ADD;
            E r = mk (o, ew, p, q);
            E lo = mk (o, ow, toE (a[0], ow), toE (a[1], ow));
            E ov = mk_not (mk_eq (r, sg ? mk_sext (lo, ew) : mk_zext (lo, ew)));
            if (!sg && sub) ov = mk (ULT, 1, toE (a[0], ow), toE (a[1], ow));
            if (!sg && o == ADD) ov = mk (ULT, 1, lo, toE (a[0], ow));
            f.regs[x.dst] = mkV (lo); f.regs[x.dst + 1] = mkV (ov);
            ++f.pc; return true;
        }
        case Intrinsic::usub_sat: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); return mkV (mk_ite (mk (ULT, 1, A, Bq), mk_const (w, 0), mk (SUB, w, A, Bq))); });
        case Intrinsic::uadd_sat: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); E s = mk (ADD, w, A, Bq); return mkV (mk_ite (mk (ULT, 1, s, A), mk_const (w, mask128 (w)), s)); });
        case Intrinsic::umax: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); return mkV (mk_ite (mk (ULT, 1, A, Bq), Bq, A)); });
        case Intrinsic::umin: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); return mkV (mk_ite (mk (ULT, 1, Bq, A), Bq, A)); });
        case Intrinsic::smax: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); return mkV (mk_ite (mk (SLT, 1, A, Bq), Bq, A)); });
        case Intrinsic::smin: return bin ([&] (const V &p, const V &q) { E A = toE (p, w), Bq = toE (q, w); return mkV (mk_ite (mk (SLT, 1, Bq, A), Bq, A)); });
        case Intrinsic::abs: { V p = a[0]; E A = toE (p, w); f.regs[x.dst] = mkV (mk_ite (mk (SLT, 1, A, mk_const (w, 0)), mk (SUB, w, mk_const (w, 0), A), A)); ++f.pc; return true; }
        case Intrinsic::ctpop: case Intrinsic::ctlz: case Intrinsic::cttz: {
            if (x.leaves != 1) return false;
            E A = toE (a[0], w);
            E r;
            if (I->getIntrinsicID () == Intrinsic::ctpop)
            {
                r = mk_const (w, 0);
                for (unsigned i = 0; i < w; ++i) r = mk (ADD, w, r, mk_zext (mk_extract (A, i, 1), w));
                if (w == 1) r = A;
            }
            else
            {
                bool lz = I->getIntrinsicID () == Intrinsic::ctlz;
                r = mk_const (w, w);
                for (unsigned i = 0; i < w; ++i)
                {
                    unsigned bit = lz ? i : w - 1 - i; // last assignment wins
                    r = mk_ite (mk_extract (A, bit, 1), mk_const (w, lz ? w - 1 - bit : bit), r);
                }
            }
            f.regs[x.dst] = mkV (r); ++f.pc; return true;
        }
        case Intrinsic::bswap: {
            E A = toE (a[0], w); E r = nullptr;
            for (unsigned i = 0; i < w / 8; ++i) { E b = mk_extract (A, i * 8, 8); r = r ? mk_concat (r, b) : b; }
            f.regs[x.dst] = mkV (r); ++f.pc; return true;
        }
        case Intrinsic::fshl: case Intrinsic::fshr: {
            if (x.leaves != 1) return false;
            E A = toE (a[0], w), C = toE (a[1], w), s = toE (a[2], w);
            if (w > 64) return false;
            E sm = mk (UREM, w, s, mk_const (w, w));
            E inv = mk (SUB, w, mk_const (w, w), sm);
            E r;
            if (I->getIntrinsicID () == Intrinsic::fshl)
                r = mk_ite (mk_eq (sm, mk_const (w, 0)), A, mk (OR, w, mk (SHL, w, A, sm), mk (LSHR, w, C, inv)));
            else
                r = mk_ite (mk_eq (sm, mk_const (w, 0)), C, mk (OR, w, mk (SHL, w, A, inv), mk (LSHR, w, C, sm)));
            f.regs[x.dst] = mkV (r); ++f.pc; return true;
        }
        case Intrinsic::sqrt: return un ([&] (const V &p) { return fpun (FSQRT, w, p); });
        case Intrinsic::floor: return un ([&] (const V &p) { return fpun (FFLOOR, w, p); });
        case Intrinsic::ceil: return un ([&] (const V &p) { return fpun (FCEIL, w, p); });
        case Intrinsic::trunc: return un ([&] (const V &p) { return fpun (FTRUNC, w, p); });
        case Intrinsic::round: return un ([&] (const V &p) { return fpun (FROUND, w, p); });
        case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return un ([&] (const V &p) { return fpun (FRINT, w, p); });
        case Intrinsic::fabs: return un ([&] (const V &p) { return fabsV (w, p); });
        case Intrinsic::sin: return un ([&] (const V &p) { return ufv (UF_SIN, p); });
        case Intrinsic::cos: return un ([&] (const V &p) { return ufv (UF_COS, p); });
        case Intrinsic::exp: return un ([&] (const V &p) { return ufv (UF_EXP, p); });
        case Intrinsic::log: return un ([&] (const V &p) { return ufv (UF_LOG, p); });
        case Intrinsic::log2: return un ([&] (const V &p) { return ufv (UF_LOG2, p); });
        case Intrinsic::log10: return un ([&] (const V &p) { return ufv (UF_LOG10, p); });
        case Intrinsic::pow: return bin ([&] (const V &p, const V &q) { return ufv2 (UF_POW, p, q); });
        case Intrinsic::powi: return false;
        case Intrinsic::minnum: return bin ([&] (const V &p, const V &q) { return fminmax (w, p, q, true); });
        case Intrinsic::maxnum: return bin ([&] (const V &p, const V &q) { return fminmax (w, p, q, false); });
        case Intrinsic::copysign: return bin ([&] (const V &p, const V &q) { u64 sm = 1ull << (w - 1); return mkV (mk (OR, w, mk (AND, w, toE (p, w), mk_const (w, sm - 1)), mk (AND, w, toE (q, w), mk_const (w, sm)))); });
        case Intrinsic::fmuladd: for (unsigned k = 0; k < x.leaves; ++k) { E m = mk (FMUL, w, toE (a[k], w), toE (a[x.leaves + k], w)); f.regs[x.dst + k] = mkV (mk (FADD, w, m, toE (a[2 * x.leaves + k], w))); } ++f.pc; return true;
        case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: return false;
        case Intrinsic::is_fpclass: {
            u64 m = a[1].c; unsigned ow = x.ow[0];
            E v = toE (a[0], ow);
            u64 inf = ow == 32 ? 0x7f800000ull : 0x7ff0000000000000ull, sgn = 1ull << (ow - 1), mant = ow == 32 ? 0x7fffffull : 0xfffffffffffffull;
            E mag = mk (AND, ow, v, mk_const (ow, sgn - 1));
            E neg = mk_extract (v, ow - 1, 1), pos = mk_not (neg);
            E isn = mk (ULT, 1, mk_const (ow, inf), mag), isi = mk_eq (mag, mk_const (ow, inf)), isz = mk_eq (mag, mk_const (ow, 0));
            E sub = mk (AND, 1, mk (ULE, 1, mag, mk_const (ow, mant)), mk_not (isz));
            E nor = mk (AND, 1, mk (ULT, 1, mk_const (ow, mant), mag), mk (ULT, 1, mag, mk_const (ow, inf)));
            E r = mk_const (1, 0);
            auto orr = [&] (E c) { r = mk (OR, 1, r, c); };
            E qb = mk_extract (v, ow == 32 ? 22 : 51, 1);
            if (m & 1) orr (mk (AND, 1, isn, mk_not (qb)));
            if (m & 2) orr (mk (AND, 1, isn, qb));
            if (m & 4) orr (mk (AND, 1, isi, neg));
            if (m & 8) orr (mk (AND, 1, nor, neg));
            if (m & 16) orr (mk (AND, 1, sub, neg));
            if (m & 32) orr (mk (AND, 1, isz, neg));
            if (m & 64) orr (mk (AND, 1, isz, pos));
            if (m & 128) orr (mk (AND, 1, sub, pos));
            if (m & 256) orr (mk (AND, 1, nor, pos));
            if (m & 512) orr (mk (AND, 1, isi, pos));
            f.regs[x.dst] = mkV (r); ++f.pc; return true;
        }
        case Intrinsic::eh_typeid_for: { u64 t = a[0].c; f.regs[x.dst] = V (selectorOf (t)); ++f.pc; return true; }
        case Intrinsic::trap: case Intrinsic::ubsantrap: pathError (S, "trap", "trap instruction"); return true;
        case Intrinsic::vastart: {
            // x86-64 va_list: force everything through overflow_arg_area
            u64 va = a[0].c;
            u64 n = f.varargs.size ();
            Obj *o = newObj (S, n * 8 + 8, 1);
            f.allocas.push_back (o->base);
            std::vector<V> vv = f.varargs;
            u64 base = o->base;
            for (u64 i = 0; i < n; ++i) writeMem (S, base + 8 * i, 64, vv[i]);
            writeMem (S, va, 32, V (48)); writeMem (S, va + 4, 32, V (176));
            writeMem (S, va + 8, 64, V (base)); writeMem (S, va + 16, 64, V (0));
            ++f.pc; return true;
        }
        case Intrinsic::vacopy: copyMem (S, a[0].c, a[1].c, 24); ++f.pc; return true;
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_xor: {
            Op o = I->getIntrinsicID () == Intrinsic::vector_reduce_add ? ADD : I->getIntrinsicID () == Intrinsic::vector_reduce_or ? OR : I->getIntrinsicID () == Intrinsic::vector_reduce_and ? AND : XOR;
            E r = toE (a[0], w);
            for (size_t k = 1; k < a.size (); ++k) r = mk (o, w, r, toE (a[k], w));
            f.regs[x.dst] = mkV (r); ++f.pc; return true;
        }
        default: return false;
    }
}

static void doCall (State &S, Frame &f, Ins &x)
{
    auto *cb = cast<CallBase> (x.I);
    Fn *fn = x.callee;
    if (!fn)
    {
        if (cb->isInlineAsm ())
        {
            std::string s = cast<InlineAsm> (cb->getCalledOperand ())->getAsmString ();
            if (s.empty ()) { if (x.dst >= 0) f.regs[x.dst] = x.ops.size () > 1 ? get (f, x.ops[0]) : V (0); ++f.pc; return; }
            throw Unsupported {"inline asm " + s};
        }
        u64 a = addrOf (S, get (f, x.ops.back ()), "indirect call");
        auto it = fnAt.find (a);
        if (it == fnAt.end ()) { pathError (S, "memory", "call through an invalid pointer: " + describe (S, a)); return; }
        fn = it->second;
    }
    std::vector<V> args;
    size_t na = cb->arg_size ();
    for (size_t i = 0; i < na; ++i)
    {
        if (x.ow[i] == 0 && cb->getArgOperand (i)->getType ()->isMetadataTy ()) { args.push_back (V (0)); continue; }
        unsigned n = leavesOf (cb->getArgOperand (i)->getType ());
        for (unsigned k = 0; k < n; ++k) args.push_back (get (f, x.ops[i], k));
    }
    if (auto *ii = dyn_cast<IntrinsicInst> (x.I))
    {
        if (intrinsic (S, f, x, ii, args)) return;
        throw Unsupported {"intrinsic " + fn->name};
    }
    if (fn->F->isIntrinsic ())
    {
        throw Unsupported {"intrinsic " + fn->name};
    }
    if (fn->builtin == -2) fn->builtin = bi.count (fn->name) ? 1 : -1;
    if (fn->builtin == 1)
    {
        bi[fn->name] (S, f, x, args);
        return;
    }
    if (fn->F->isDeclaration ()) throw Unsupported {"external function " + demangle (fn->name)};
    // byval copies
    std::vector<u64> tmp;
    for (size_t i = 0, k = 0; i < na; ++i)
    {
        if (cb->isByValArgument (i))
        {
            u64 sz = DL->getTypeAllocSize (cb->getParamByValType (i));
            u64 src = addrOf (S, args[k], "byval");
            Obj *o = newObj (S, sz, 1);
            u64 b = o->base;
            copyMem (S, b, src, sz);
            args[k] = V (b);
            tmp.push_back (b);
        }
        k += leavesOf (cb->getArgOperand (i)->getType ());
    }
    pushFrame (S, fn, args);
    for (u64 b : tmp) S.st.back ().allocas.push_back (b);
}

int builtinId (const std::string &) { return 0; }
