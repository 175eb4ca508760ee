// Symbolic executor for LLVM IR.  Usage:
//   vsx --bc prog.bc --entry NAME --out result.json [--case N] [--jobs J] [--time S] ...
#include "engine.h"
#include <cxxabi.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <poll.h>
#include <signal.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <atomic>
#include <fstream>
#include <sstream>

using namespace llvm;

static double now () { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- options and statistics
struct Options {
    std::string bc, entry, out;
    int cs = 0, jobs = 1, tier = 0;
    double timeLimit = 800;
    unsigned incTo = 60, qto = 20000, exactTo = 60000; bool constHash = false;
    u64 maxSteps = 60000000;
    u64 maxPaths = 10000000;
    unsigned concCap = 300;
    unsigned maxViol = 4;
    unsigned maxWit = 40;
    u64 seed = 1;
    bool verbose = false;
    bool trace = false;
} opt;

struct Stats {
    u64 paths = 0, done = 0, assumed = 0, infeasible = 0, steps = 0, forks = 0, queries = 0, sat = 0, unsat = 0, unknown = 0;
    u64 absReal = 0, absLocal = 0, exactq = 0;
    u64 checks = 0, checksConst = 0, checksSolver = 0;
    double solver = 0;
} st;

struct Violation { std::string kind, msg, loc; std::string values; bool real; };
static std::vector<Violation> viols;
static std::vector<std::string> witnesses;
static u64 witSeen = 0;
static std::set<std::string> reachedTags, inconclusive, fnsUsed;
static std::set<std::string> violKeys;
static double t0;

static std::string jesc (const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

// ---------------------------------------------------------------- module
static LLVMContext lctx;
static std::unique_ptr<Module> mod;
static const DataLayout *DL;
static std::unordered_map<const Function *, Fn *> fnOf;
static std::unordered_map<u64, Fn *> fnAt;
static std::unordered_map<const GlobalValue *, u64> gaddr;
static std::unordered_map<std::string, u64> typeinfoAddr;
static std::map<u64, std::string> addrName;
static std::deque<std::vector<V>> constPool;
static std::unordered_map<const Constant *, const V *> constMemo;

static std::string demangle (const std::string &n)
{
    int s = 0;
    char *d = abi::__cxa_demangle (n.c_str (), nullptr, nullptr, &s);
    std::string r = s == 0 && d ? d : n;
    free (d);
    return r;
}

struct Unsupported { std::string msg; };

static unsigned scalarW (Type *t)
{
    if (t->isIntegerTy ()) return t->getIntegerBitWidth ();
    if (t->isPointerTy ()) return 64;
    if (t->isDoubleTy ()) return 64;
    if (t->isFloatTy ()) return 32;
    if (t->isX86_FP80Ty ()) return 80;
    return 0;
}

static void flatten (Type *t, std::vector<std::pair<u64, unsigned>> &out, u64 off = 0)
{
    if (unsigned w = scalarW (t)) { out.push_back ({off, w}); return; }
    if (auto *s = dyn_cast<StructType> (t))
    {
        const StructLayout *L = DL->getStructLayout (s);
        for (unsigned i = 0; i < s->getNumElements (); ++i) flatten (s->getElementType (i), out, off + L->getElementOffset (i));
        return;
    }
    if (auto *a = dyn_cast<ArrayType> (t))
    {
        u64 es = DL->getTypeAllocSize (a->getElementType ());
        for (u64 i = 0; i < a->getNumElements (); ++i) flatten (a->getElementType (), out, off + i * es);
        return;
    }
    if (auto *v = dyn_cast<FixedVectorType> (t))
    {
        u64 es = DL->getTypeStoreSize (v->getElementType ());
        if (v->getElementType ()->isIntegerTy (1)) throw Unsupported {"vector of i1 in memory"};
        for (u64 i = 0; i < v->getNumElements (); ++i) flatten (v->getElementType (), out, off + i * es);
        return;
    }
    if (t->isVoidTy () || t->isTokenTy () || t->isMetadataTy () || t->isLabelTy ()) return;
    std::string s; raw_string_ostream os (s); t->print (os);
    throw Unsupported {"type " + s};
}

static void flattenReg (Type *t, std::vector<std::pair<u64, unsigned>> &out)
{
    // like flatten, but vectors of i1 are fine in registers
    if (auto *v = dyn_cast<FixedVectorType> (t))
    {
        unsigned w = scalarW (v->getElementType ());
        for (u64 i = 0; i < v->getNumElements (); ++i) out.push_back ({0, w});
        return;
    }
    if (auto *s = dyn_cast<StructType> (t)) { for (auto *x : s->elements ()) flattenReg (x, out); return; }
    if (auto *a = dyn_cast<ArrayType> (t)) { for (u64 i = 0; i < a->getNumElements (); ++i) flattenReg (a->getElementType (), out); return; }
    if (unsigned w = scalarW (t)) { out.push_back ({0, w}); return; }
    if (t->isVoidTy () || t->isTokenTy () || t->isMetadataTy () || t->isLabelTy ()) return;
    std::string s; raw_string_ostream os (s); t->print (os);
    throw Unsupported {"type " + s};
}

static unsigned leavesOf (Type *t) { std::vector<std::pair<u64, unsigned>> l; flattenReg (t, l); return l.size (); }

static u64 constAddr (const Constant *c);

static void evalConst (const Constant *c, std::vector<V> &out)
{
    Type *t = c->getType ();
    if (auto *ci = dyn_cast<ConstantInt> (c))
    {
        unsigned w = ci->getBitWidth ();
        if (w <= 64) { out.push_back (V (ci->getZExtValue ())); return; }
        const u64 *d = ci->getValue ().getRawData ();
        u128 v = d[0]; if (w > 64) v |= (u128) d[1] << 64;
        if (w > 128) throw Unsupported {"integer constant wider than 128"};
        out.push_back (mkV (mk_const (w, v)));
        return;
    }
    if (auto *cf = dyn_cast<ConstantFP> (c))
    {
        APInt b = cf->getValueAPF ().bitcastToAPInt ();
        if (b.getBitWidth () <= 64) out.push_back (V (b.getZExtValue ()));
        else { const u64 *d = b.getRawData (); out.push_back (mkV (mk_const (80, (u128) d[0] | ((u128) d[1] << 64)))); }
        return;
    }
    if (isa<ConstantPointerNull> (c)) { out.push_back (V (0)); return; }
    if (isa<UndefValue> (c) || isa<ConstantAggregateZero> (c))
    {
        std::vector<std::pair<u64, unsigned>> l; flattenReg (t, l);
        for (auto &x : l) { if (x.second > 64) out.push_back (mkV (mk_const (x.second, 0))); else out.push_back (V (0)); }
        return;
    }
    if (isa<ConstantTokenNone> (c)) return;
    if (auto *gv = dyn_cast<GlobalValue> (c)) { out.push_back (V (constAddr (gv))); return; }
    if (auto *ca = dyn_cast<ConstantAggregate> (c)) { for (auto &o : ca->operands ()) evalConst (cast<Constant> (o), out); return; }
    if (auto *cd = dyn_cast<ConstantDataSequential> (c)) { for (unsigned i = 0; i < cd->getNumElements (); ++i) evalConst (cd->getElementAsConstant (i), out); return; }
    if (auto *ce = dyn_cast<ConstantExpr> (c))
    {
        if (ce->isCast ())
        {
            std::vector<V> v; evalConst (ce->getOperand (0), v);
            unsigned w = scalarW (t);
            if (ce->getOpcode () == Instruction::Trunc) v[0].c &= mask64 (w);
            out.push_back (v[0]);
            return;
        }
        if (ce->getOpcode () == Instruction::GetElementPtr) { out.push_back (V (constAddr (ce))); return; }
        std::vector<V> a, b; evalConst (ce->getOperand (0), a); evalConst (ce->getOperand (1), b);
        unsigned w = scalarW (t);
        switch (ce->getOpcode ())
        {
            case Instruction::Add: out.push_back (V ((a[0].c + b[0].c) & mask64 (w))); return;
            case Instruction::Sub: out.push_back (V ((a[0].c - b[0].c) & mask64 (w))); return;
            case Instruction::Xor: out.push_back (V (a[0].c ^ b[0].c)); return;
            default: break;
        }
    }
    std::string s; raw_string_ostream os (s); c->print (os);
    throw Unsupported {"constant " + s.substr (0, 200)};
}

static u64 constAddr (const Constant *c)
{
    if (auto *ga = dyn_cast<GlobalAlias> (c)) return constAddr (ga->getAliasee ());
    if (auto *gv = dyn_cast<GlobalValue> (c))
    {
        auto it = gaddr.find (gv);
        if (it == gaddr.end ()) throw Unsupported {"address of " + gv->getName ().str ()};
        return it->second;
    }
    if (auto *ce = dyn_cast<ConstantExpr> (c))
        if (ce->getOpcode () == Instruction::GetElementPtr)
        {
            APInt off (64, 0);
            if (!cast<GEPOperator> (ce)->accumulateConstantOffset (*DL, off)) throw Unsupported {"gep constant"};
            std::vector<V> b; evalConst (ce->getOperand (0), b);
            return b[0].c + off.getSExtValue ();
        }
    std::vector<V> v; evalConst (c, v);
    return v[0].c;
}

static void initBytes (const Constant *c, std::vector<uint8_t> &mem, u64 off)
{
    if (isa<ConstantAggregateZero> (c) || isa<UndefValue> (c)) return;
    if (auto *ca = dyn_cast<ConstantStruct> (c))
    {
        const StructLayout *L = DL->getStructLayout (ca->getType ());
        for (unsigned i = 0; i < ca->getNumOperands (); ++i) initBytes (ca->getOperand (i), mem, off + L->getElementOffset (i));
        return;
    }
    if (isa<ConstantArray> (c) || isa<ConstantVector> (c))
    {
        Type *et = isa<ConstantArray> (c) ? cast<ArrayType> (c->getType ())->getElementType () : cast<VectorType> (c->getType ())->getElementType ();
        u64 es = DL->getTypeAllocSize (et);
        for (unsigned i = 0; i < c->getNumOperands (); ++i) initBytes (cast<Constant> (c->getOperand (i)), mem, off + i * es);
        return;
    }
    if (auto *cd = dyn_cast<ConstantDataSequential> (c))
    {
        StringRef r = cd->getRawDataValues ();
        memcpy (&mem[off], r.data (), r.size ());
        return;
    }
    std::vector<V> v; evalConst (c, v);
    u64 sz = DL->getTypeStoreSize (c->getType ());
    u128 x = v[0].e ? cval (v[0].e) : v[0].c;
    for (u64 i = 0; i < sz && i < 16; ++i) mem[off + i] = (uint8_t) (x >> (8 * i));
}

// ---------------------------------------------------------------- solver
struct Solver {
    Z3_context ctx = nullptr;
    Z3_solver s = nullptr;
    Lowering low, lowx;
    std::vector<E> stack;
    void init ()
    {
        Z3_config cfg = Z3_mk_config ();
        ctx = Z3_mk_context_rc (cfg);
        Z3_del_config (cfg);
        Z3_set_error_handler (ctx, [] (Z3_context c, Z3_error_code e) { fprintf (stderr, "z3 error: %s\n", Z3_get_error_msg (c, e)); _exit (9); });
        low.ctx = ctx; low.exact = false;
        lowx.ctx = ctx; lowx.exact = true;
        s = Z3_mk_simple_solver (ctx);
        Z3_solver_inc_ref (ctx, s);
        setTo (s, opt.incTo);
    }
    void setTo (Z3_solver sv, unsigned ms)
    {
        Z3_params p = Z3_mk_params (ctx); Z3_params_inc_ref (ctx, p);
        Z3_params_set_uint (ctx, p, Z3_mk_string_symbol (ctx, "timeout"), ms);
        Z3_solver_set_params (ctx, sv, p);
        Z3_params_dec_ref (ctx, p);
    }
    void sync (const std::vector<E> &pc)
    {
        size_t k = 0;
        while (k < pc.size () && k < stack.size () && pc[k] == stack[k]) ++k;
        if (stack.size () > k) { Z3_solver_pop (ctx, s, stack.size () - k); stack.resize (k); }
        for (; k < pc.size (); ++k)
        {
            Z3_solver_push (ctx, s);
            Z3_solver_assert (ctx, s, low.lower (pc[k]));
            stack.push_back (pc[k]);
        }
    }
    void getModel (Z3_solver sv, Assign &out)
    {
        Z3_model m = Z3_solver_get_model (ctx, sv);
        Z3_model_inc_ref (ctx, m);
        unsigned n = Z3_model_get_num_consts (ctx, m);
        for (unsigned i = 0; i < n; ++i)
        {
            Z3_func_decl d = Z3_model_get_const_decl (ctx, m, i);
            Z3_symbol sy = Z3_get_decl_name (ctx, d);
            std::string nm = Z3_get_symbol_string (ctx, sy);
            if (nm.size () < 2 || nm[0] != 's' || !isdigit (nm[1])) continue;
            Z3_ast v = Z3_model_get_const_interp (ctx, m, d);
            if (!v) continue;
            u64 id = strtoull (nm.c_str () + 1, nullptr, 10);
            u64 x = 0;
            Z3_sort so = Z3_get_sort (ctx, v);
            if (Z3_get_sort_kind (ctx, so) == Z3_BOOL_SORT) x = Z3_get_bool_value (ctx, v) == Z3_L_TRUE;
            else if (!Z3_get_numeral_uint64 (ctx, v, &x)) x = 0;
            out.val[id] = x;
        }
        Z3_model_dec_ref (ctx, m);
    }
    // 0 unsat 1 sat 3 unknown
    // in a process of its own: the solver does not stop at its time limit in all of its phases
    int fresh (Lowering &lw, const std::vector<E> &pc, E extra, Assign *out, unsigned to)
    {
        double t = now ();
        int fd[2];
        if (pipe (fd)) return 3;
        pid_t p = fork ();
        if (p < 0) { close (fd[0]); close (fd[1]); return 3; }
        if (p == 0)
        {
            prctl (PR_SET_PDEATHSIG, SIGKILL);
            close (fd[0]);
            Assign m;
            u64 r = (u64) fresh1 (lw, pc, extra, &m, to);
            std::vector<u64> b {r};
            if (r == 1) for (auto &kv : m.val) { b.push_back (kv.first); b.push_back (kv.second); }
            const char *c = (const char *) b.data ();
            for (size_t left = b.size () * 8; left;) { ssize_t k = write (fd[1], c, left); if (k <= 0) break; c += k; left -= (size_t) k; }
            _exit (0);
        }
        close (fd[1]);
        std::vector<u64> b;
        std::string buf;
        const double end = t + to / 1000.0 + 1.0;
        bool eof = false;
        while (!eof)
        {
            double left = end - now ();
            if (left <= 0) break;
            pollfd pf {fd[0], POLLIN, 0};
            int k = poll (&pf, 1, (int) (left * 1000) + 1);
            if (k < 0 && errno == EINTR) continue;
            if (k <= 0) break;
            char c[65536];
            ssize_t n = read (fd[0], c, sizeof c);
            if (n <= 0) eof = true; else buf.append (c, (size_t) n);
        }
        close (fd[0]);
        if (!eof) kill (p, SIGKILL);
        while (waitpid (p, nullptr, 0) < 0 && errno == EINTR) {}
        st.solver += now () - t;
        if (!eof || buf.size () < 8) return 3;
        b.resize (buf.size () / 8);
        memcpy (b.data (), buf.data (), b.size () * 8);
        if (b[0] == 1 && out) for (size_t k = 1; k + 1 < b.size (); k += 2) out->val[b[k]] = b[k + 1];
        return (int) b[0];
    }
    int fresh1 (Lowering &lw, const std::vector<E> &pc, E extra, Assign *out, unsigned to)
    {
        bool bv = !(extra && extra->abs);
        for (E p : pc) bv &= !p->abs;
        Z3_tactic tac = Z3_mk_tactic (ctx, bv ? "qfbv" : lw.exact ? "qffpbv" : "default"); Z3_tactic_inc_ref (ctx, tac);
        Z3_solver sv = bv || lw.exact ? Z3_mk_solver_from_tactic (ctx, tac) : Z3_mk_solver (ctx);
        Z3_solver_inc_ref (ctx, sv);
        setTo (sv, to);
        for (E p : pc) Z3_solver_assert (ctx, sv, lw.lower (p));
        if (extra) Z3_solver_assert (ctx, sv, lw.lower (extra));
        Z3_lbool r = Z3_solver_check (ctx, sv);
        if (r == Z3_L_TRUE && out) getModel (sv, *out);
        Z3_solver_dec_ref (ctx, sv);
        Z3_tactic_dec_ref (ctx, tac);
        return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 3;
    }
} sol;

static u64 rngs = 88172645463325252ull;
static u64 rnd () { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }

static bool consistent (const Assign &m, const std::vector<E> &pc, E extra)
{
    if (extra && !m.eval (extra)) return false;
    for (E p : pc) if (!m.eval (p)) return false;
    return true;
}

static void symsOf (E e, std::set<u64> &out, std::unordered_set<E> &seen)
{
    if (!seen.insert (e).second) return;
    if (e->op == SYM) out.insert (e->lo);
    for (unsigned i = 0; i < e->n; ++i) symsOf (e->a[i], out, seen);
}

static std::set<u64> fpSyms;

static u64 randVal (u64 id, u64 cur)
{
    unsigned w = g_syms[id].w;
    if (w == 64 && fpSyms.count (id))
    {
        static const double pool[] = {0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, 0.1, 0.001, 1e-3, 7.3, 100.25, -100.25, 1e6, 1234567.891, 4.5e6, 1e9, 3e9, -3e9, 1e12, 1e-9, 1e300, -1e300, 1e-300, 0.3, 1.0 / 3, 10.0, 12345.678, -98765.4321};
        switch (rnd () % 7)
        {
            case 0: case 1: return d_bits (pool[rnd () % (sizeof pool / sizeof *pool)]);
            case 2: return d_bits ((double) (int64_t) (rnd () % 2001) - 1000);
            case 3: return d_bits (((double) (int64_t) (rnd () % 200001) - 100000) / 1000.0);
            case 4: return d_bits (bits_d (cur) * (1 + ((double) (rnd () % 2001) - 1000) / 1000.0));
            case 5: return cur + rnd () % 9 - 4;
            default: return d_bits (((double) (rnd () % (1ull << 53)) / (double) (1ull << 53)) * pow (10, (double) (rnd () % 8)) * (rnd () & 1 ? 1 : -1));
        }
    }
    switch (rnd () % 4)
    {
        case 0: return rnd () & mask64 (w);
        case 1: return (rnd () % 16) & mask64 (w);
        case 2: return (cur + rnd () % 5 - 2) & mask64 (w);
        default: return (mask64 (w) - rnd () % 4) & mask64 (w);
    }
}

// Seek concrete values satisfying pc and extra, starting from m, by mutating the symbols of
// the first falsified constraint.
static bool localSearch (Assign &m, const std::vector<E> &pc, E extra, int iters, double budget)
{
    double start = now ();
    std::vector<E> all (pc);
    if (extra) all.push_back (extra);
    std::vector<std::vector<u64>> syms (all.size ());
    std::set<u64> every;
    auto deps = [&] (size_t i) -> std::vector<u64> & {
        if (syms[i].empty ()) { std::set<u64> s; std::unordered_set<E> seen; symsOf (all[i], s, seen); syms[i].assign (s.begin (), s.end ()); }
        return syms[i];
    };
    auto score = [&] (const Assign &a, size_t &first) {
        size_t bad = 0; first = all.size ();
        for (size_t i = 0; i < all.size (); ++i) if (!a.eval (all[i])) { if (first == all.size () || rnd () % 3 == 0) first = i; ++bad; }
        return bad;
    };
    Assign cur; cur.val = m.val;
    size_t first; size_t best = score (cur, first);
    for (int it = 0; it < iters && best; ++it)
    {
        if ((it & 31) == 0 && now () - start > budget) break;
        if (first >= all.size ()) break;
        auto &d = deps (first);
        if (d.empty ()) return false;
        Assign nx; nx.val = cur.val;
        unsigned k = 1 + rnd () % 2;
        for (unsigned j = 0; j < k; ++j) { u64 id = d[rnd () % d.size ()]; nx.val[id] = randVal (id, nx.val[id]); }
        if (rnd () % 8 == 0 && d.size () > 1) { u64 a = d[rnd () % d.size ()], b = d[rnd () % d.size ()]; if (g_syms[a].w == g_syms[b].w) nx.val[a] = nx.val[b]; }
        size_t f2; size_t sc = score (nx, f2);
        if (sc <= best || rnd () % 50 == 0) { cur.val = nx.val; cur.memo.clear (); best = sc; first = f2; }
    }
    if (best == 0) { m.val = cur.val; m.memo.clear (); return true; }
    return false;
}

// the constraints that share symbols with e, directly or through others
static const std::vector<u64> &symList (E e)
{
    static std::unordered_map<E, std::vector<u64>> memo;
    auto it = memo.find (e);
    if (it != memo.end ()) return it->second;
    std::set<u64> s; std::unordered_set<E> seen;
    symsOf (e, s, seen);
    return memo[e] = std::vector<u64> (s.begin (), s.end ());
}
static std::vector<E> slice (const std::vector<E> &pc, E e)
{
    std::unordered_set<u64> want (symList (e).begin (), symList (e).end ());
    std::vector<char> in (pc.size ());
    for (bool grow = true; grow;)
    {
        grow = false;
        for (size_t i = 0; i < pc.size (); ++i)
        {
            if (in[i]) continue;
            const auto &l = symList (pc[i]);
            bool hit = l.empty ();
            for (u64 x : l) if (want.count (x)) { hit = true; break; }
            if (!hit) continue;
            in[i] = 1; grow = true;
            want.insert (l.begin (), l.end ());
        }
    }
    std::vector<E> r;
    for (size_t i = 0; i < pc.size (); ++i) if (in[i]) r.push_back (pc[i]);
    return r;
}
struct Park {};
static bool parking = false, phase1 = false;
static std::vector<State *> parked;
// A weaker formula: f (a) != f (b) implies a != b. Null when there is nothing to weaken.
static E differ (E x, E y, bool &some, int depth)
{
    if (x != y && depth < 40 && x->op == y->op && x->n == y->n && x->aux == y->aux && x->w == y->w
        && ((x->op >= FADD && x->op <= UF) || x->op == SEXT || x->op == ZEXT || x->op == EXTRACT || x->op == ADD))
    {
        bool same = true;
        for (unsigned i = 0; i < x->n; ++i) same &= x->a[i]->w == y->a[i]->w;
        if (same)
        {
            if (x->op >= FADD) some = true;
            E r = mk_const (1, 0);
            for (unsigned i = 0; i < x->n; ++i) if (x->a[i] != y->a[i]) r = mk (OR, 1, r, differ (x->a[i], y->a[i], some, depth + 1));
            return r;
        }
    }
    return mk_not (mk_eq_raw (x, y));
}
static E weaken (E e, int depth = 0)
{
    if (e->w != 1 || depth > 12) return nullptr;
    if (e->op == OR || e->op == AND)
    {
        E x = weaken (e->a[0], depth + 1), y = weaken (e->a[1], depth + 1);
        if (!x && !y) return nullptr;
        return mk (e->op, 1, x ? x : e->a[0], y ? y : e->a[1]);
    }
    if (e->op != XOR || !is_const (e->a[1]) || e->a[0]->op != EQ) return nullptr;
    bool some = false;
    E r = differ (e->a[0]->a[0], e->a[0]->a[1], some, 0);
    return some ? r : nullptr;
}
// 0 unsat; 1 sat with a model that the native semantics satisfies; 2 satisfiable only in the
// abstraction so far; 3 unknown
static int query (State &S, E extra, std::shared_ptr<Assign> *out, bool needReal)
{
    ++st.queries;
    if (is_const (extra)) { if (!extra->lo) return 0; }
    static const bool showq = getenv ("VSX_Q");
    if (showq) fprintf (stderr, "q %d %s\n", (int) getpid (), expr_str (extra, 9).c_str ());
    double t = now ();
    sol.sync (S.pc);
    Z3_solver_push (sol.ctx, sol.s);
    Z3_solver_assert (sol.ctx, sol.s, sol.low.lower (extra));
    Z3_lbool r = Z3_solver_check (sol.ctx, sol.s);
    auto m = std::make_shared<Assign> ();
    if (r == Z3_L_TRUE) sol.getModel (sol.s, *m);
    Z3_solver_pop (sol.ctx, sol.s, 1);
    st.solver += now () - t;
    int rr = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : 3;
    if (rr != 0 && !(rr == 1 && consistent (*m, S.pc, extra)))
    {
        // not a quick answer: before the work is distributed, leave it for a worker
        if (parking) throw Park ();
        if (needReal && extra->abs)
        {
            // cheap candidates first: the solver can take very long to find a model of floating point terms
            auto c = std::make_shared<Assign> ();
            if (S.model) c->val = S.model->val;
            double t0 = now ();
            bool hit = localSearch (*c, S.pc, extra, 400, 0.3) && consistent (*c, S.pc, extra);
            st.solver += now () - t0;
            if (hit) { if (out) *out = c; ++st.sat; ++st.absLocal; return 1; }
        }
        if (E str = needReal ? weaken (extra) : nullptr)
        {
            // f (a) != f (b) has no solution when a != b has none
            double t0 = now ();
            Assign tmp;
            int r0 = is_const (str) ? (str->lo ? 1 : 0) : sol.fresh (sol.low, slice (S.pc, str), str, &tmp, opt.qto);
            st.solver += now () - t0;
            if (r0 == 0) { ++st.unsat; return 0; }
        }
    }
    if (rr == 3)
    {
        static const char *slow = getenv ("VSX_SLOW");
        std::vector<E> sl = slice (S.pc, extra);
        double t1 = now ();
        rr = sol.fresh (sol.low, sl, extra, m.get (), opt.qto);
        if (slow) { fprintf (stderr, "slow %zu/%zu %d %.2f %s\n", sl.size (), S.pc.size (), rr, now () - t1, expr_str (extra, 9).c_str ()); if (*slow == '2') for (E p : sl) fprintf (stderr, "   %s\n", expr_str (p, 12).c_str ()); }
        if (rr == 1 && sl.size () < S.pc.size ())
        {
            if (S.model) for (auto &kv : S.model->val) if (!m->val.count (kv.first)) m->val[kv.first] = kv.second;
            m->memo.clear ();
            if (!consistent (*m, S.pc, extra)) rr = 3;
        }
        if (rr == 3) rr = sol.fresh (sol.low, S.pc, extra, m.get (), opt.qto * 3);
    }
    if (rr == 0) { ++st.unsat; return 0; }
    if (rr == 1)
    {
        ++st.sat;
        if (consistent (*m, S.pc, extra)) { if (out) *out = m; ++st.absReal; return 1; }
    }
    // abstraction only (or unknown): look for real values
    if (S.model)
        for (auto &kv : S.model->val) if (!m->val.count (kv.first)) m->val[kv.first] = kv.second;
    if (localSearch (*m, S.pc, extra, needReal ? 20000 : 200, needReal ? 10.0 : 0.2)) { if (out) *out = m; ++st.absLocal; return 1; }
    if (!needReal) return 2;
    ++st.exactq;
    auto mx = std::make_shared<Assign> ();
    int ex = sol.fresh (sol.lowx, S.pc, extra, mx.get (), opt.exactTo);
    if (ex == 0) { ++st.unsat; return 0; }
    if (ex == 1)
    {
        if (consistent (*mx, S.pc, extra)) { if (out) *out = mx; return 1; }
        if (localSearch (*mx, S.pc, extra, 20000, 10.0)) { if (out) *out = mx; return 1; }
        return 2;
    }
    ++st.unknown;
    return 3;
}

// ---------------------------------------------------------------- compile functions
static Fn *getFn (const Function *F)
{
    auto it = fnOf.find (F);
    return it == fnOf.end () ? nullptr : it->second;
}

int builtinId (const std::string &n);

static std::string locOf (const Instruction *I)
{
    std::string s;
    if (const DebugLoc &d = I->getDebugLoc ())
    {
        const DILocation *L = d.get ();
        while (L)
        {
            s += (s.empty () ? "" : " < ") + L->getFilename ().str () + ":" + std::to_string (L->getLine ());
            L = L->getInlinedAt ();
        }
    }
    else s = I->getFunction ()->getName ().str ();
    return s;
}

static void compile (Fn &f)
{
    if (f.compiled) return;
    f.compiled = true;
    Function &F = *f.F;
    std::unordered_map<const Value *, int> slot;
    int n = 0;
    for (auto &a : F.args ()) { slot[&a] = n; f.argSlot.push_back (n); n += leavesOf (a.getType ()); }
    for (auto &bb : F) for (auto &i : bb) { if (!i.getType ()->isVoidTy () && !i.getType ()->isTokenTy ()) { slot[&i] = n; n += leavesOf (i.getType ()); } }
    f.nregs = n;
    int bi = 0, pc = 0;
    for (auto &bb : F)
    {
        f.bbIdx[&bb] = bi++; f.bbStart.push_back (pc); f.bbs.push_back (&bb);
        for (auto &i : bb) { if (!isa<DbgInfoIntrinsic> (i)) ++pc; }
    }
    f.code.reserve (pc);
    auto opnd = [&] (const Value *v) -> Opnd {
        Opnd o;
        if (auto *c = dyn_cast<Constant> (v))
        {
            auto it = constMemo.find (c);
            if (it == constMemo.end ())
            {
                constPool.emplace_back ();
                evalConst (c, constPool.back ());
                if (constPool.back ().empty ()) constPool.back ().push_back (V (0));
                it = constMemo.emplace (c, constPool.back ().data ()).first;
            }
            o.k = it->second;
        }
        else
        {
            auto it = slot.find (v);
            if (it == slot.end ()) o.slot = -1;
            else o.slot = it->second;
        }
        return o;
    };
    for (auto &bb : F)
        for (auto &i : bb)
        {
            if (isa<DbgInfoIntrinsic> (i)) continue;
            Ins x;
            x.I = &i; x.op = i.getOpcode ();
            if (slot.count (&i)) { x.dst = slot[&i]; x.leaves = leavesOf (i.getType ()); x.w = scalarW (i.getType ()); if (!x.w && i.getType ()->isVectorTy ()) x.w = scalarW (cast<VectorType> (i.getType ())->getElementType ()); }
            auto addop = [&] (const Value *v) {
                x.ops.push_back (opnd (v));
                Type *t = v->getType ();
                unsigned w = scalarW (t);
                if (!w && t->isVectorTy ()) w = scalarW (cast<VectorType> (t)->getElementType ());
                x.ow.push_back (w);
            };
            switch (i.getOpcode ())
            {
                case Instruction::Br: {
                    auto &b = cast<BranchInst> (i);
                    x.bb0 = f.bbIdx[b.getSuccessor (0)];
                    if (b.isConditional ()) { addop (b.getCondition ()); x.bb1 = f.bbIdx[b.getSuccessor (1)]; }
                    break;
                }
                case Instruction::Switch: addop (cast<SwitchInst> (i).getCondition ()); break;
                case Instruction::PHI: break;
                case Instruction::GetElementPtr: {
                    auto &g = cast<GetElementPtrInst> (i);
                    if (g.getType ()->isVectorTy ()) throw Unsupported {"vector gep"};
                    addop (g.getPointerOperand ());
                    for (auto it = gep_type_begin (g), e = gep_type_end (g); it != e; ++it)
                    {
                        Value *idx = it.getOperand ();
                        if (StructType *stt = it.getStructTypeOrNull ())
                            x.off += DL->getStructLayout (stt)->getElementOffset (cast<ConstantInt> (idx)->getZExtValue ());
                        else
                        {
                            int64_t es = DL->getTypeAllocSize (it.getIndexedType ());
                            if (auto *ci = dyn_cast<ConstantInt> (idx)) x.off += es * ci->getSExtValue ();
                            else { addop (idx); x.gepv.push_back ({(int) x.ops.size () - 1, es}); }
                        }
                    }
                    break;
                }
                case Instruction::Load: addop (cast<LoadInst> (i).getPointerOperand ()); flatten (i.getType (), x.lay); break;
                case Instruction::Store: addop (cast<StoreInst> (i).getPointerOperand ()); addop (cast<StoreInst> (i).getValueOperand ()); flatten (cast<StoreInst> (i).getValueOperand ()->getType (), x.lay); break;
                case Instruction::Alloca: x.off = DL->getTypeAllocSize (cast<AllocaInst> (i).getAllocatedType ()); addop (cast<AllocaInst> (i).getArraySize ()); break;
                case Instruction::ExtractValue: {
                    auto &ev = cast<ExtractValueInst> (i);
                    addop (ev.getAggregateOperand ());
                    Type *t = ev.getAggregateOperand ()->getType ();
                    unsigned o = 0;
                    for (unsigned k : ev.indices ())
                    {
                        for (unsigned j = 0; j < k; ++j) o += leavesOf (isa<StructType> (t) ? cast<StructType> (t)->getElementType (j) : cast<ArrayType> (t)->getElementType ());
                        t = isa<StructType> (t) ? cast<StructType> (t)->getElementType (k) : cast<ArrayType> (t)->getElementType ();
                    }
                    x.sub = o; x.subn = leavesOf (t);
                    break;
                }
                case Instruction::InsertValue: {
                    auto &iv = cast<InsertValueInst> (i);
                    addop (iv.getAggregateOperand ()); addop (iv.getInsertedValueOperand ());
                    Type *t = iv.getType ();
                    unsigned o = 0;
                    for (unsigned k : iv.indices ())
                    {
                        for (unsigned j = 0; j < k; ++j) o += leavesOf (isa<StructType> (t) ? cast<StructType> (t)->getElementType (j) : cast<ArrayType> (t)->getElementType ());
                        t = isa<StructType> (t) ? cast<StructType> (t)->getElementType (k) : cast<ArrayType> (t)->getElementType ();
                    }
                    x.sub = o; x.subn = leavesOf (t);
                    break;
                }
                case Instruction::Call: case Instruction::Invoke: {
                    auto &c = cast<CallBase> (i);
                    for (auto &a : c.args ()) { if (a->getType ()->isMetadataTy ()) { x.ops.push_back (Opnd ()); x.ow.push_back (0); } else addop (a); }
                    addop (c.getCalledOperand ());
                    if (auto *cf = dyn_cast<Function> (c.getCalledOperand ()->stripPointerCastsAndAliases ())) x.callee = getFn (cf);
                    if (auto *inv = dyn_cast<InvokeInst> (&i)) { x.bb0 = f.bbIdx[inv->getNormalDest ()]; x.bb1 = f.bbIdx[inv->getUnwindDest ()]; }
                    break;
                }
                default:
                    for (auto &o : i.operands ()) if (!isa<BasicBlock> (o)) addop (o);
                    break;
            }
            f.code.push_back (std::move (x));
        }
}

// ---------------------------------------------------------------- executor
static std::vector<State *> work;
static State *cur; // state being executed
static std::set<const Ins *> usedIns;

struct Stop {}; // abandon the current instruction: the state was ended or replaced by forks

static void collectStack (State &S, std::string &out)
{
    int k = 0;
    for (int i = (int) S.st.size () - 1; i >= 0 && k < 12; --i, ++k)
    {
        Frame &f = S.st[i];
        if (f.pc < (int) f.f->code.size ()) out += (k ? " | " : "") + demangle (f.f->name).substr (0, 90) + " @ " + locOf (f.f->code[f.pc].I);
    }
}

static std::string valuesJson (State &S, const Assign &m)
{
    std::string s = "[";
    bool first = true;
    for (auto &i : S.inputs)
    {
        u64 v = i.v.e ? (u64) m.eval (i.v.e) : i.v.c;
        char b[64]; snprintf (b, sizeof b, "%d,\"0x%llx\"]", i.w, (unsigned long long) v);
        s += std::string (first ? "" : ",") + "[\"" + jesc (i.name) + "\"," + b;
        first = false;
    }
    return s + "]";
}

// shared by the worker processes: next pending state, violations, when the first one was found (ms)
static std::atomic<size_t> *shared;
static int worker = -1;
static std::string resultJson ();
static bool enough () // a violation has been found a while ago: no need to look further
{
    size_t at = shared ? shared[2].load () : 0;
    return at && now () * 1000 > at + 15000;
}
static void saveResult ()
{
    std::string f = opt.out + "." + std::to_string (worker), tmp = opt.out + ".tmp" + std::to_string (worker);
    std::ofstream (tmp) << resultJson ();
    rename (tmp.c_str (), f.c_str ());
}

static void recordViolation (State &S, const std::string &kind, const std::string &msg, const Assign *m, bool real)
{
    std::string loc; collectStack (S, loc);
    std::string key = kind + "|" + msg + "|" + loc.substr (0, loc.find (" | "));
    if (!violKeys.insert (key).second) return;
    if (viols.size () >= 40) return;
    if (getenv ("VSX_DUMP")) { fprintf (stderr, "== %s at %s\n", msg.c_str (), loc.c_str ()); for (E e : S.pc) fprintf (stderr, "  pc %s  [%d]\n", expr_str (e, 8).c_str (), m ? (int) m->eval (e) : -1); for (auto &c : S.conc) fprintf (stderr, "  conc %s = %llx\n", expr_str (c.first, 5).c_str (), (unsigned long long) c.second); }
    Assign empty;
    viols.push_back ({kind, msg, loc, valuesJson (S, m ? *m : empty), real});
    if (shared)
    {
        size_t none = 0;
        shared[2].compare_exchange_strong (none, (size_t) (now () * 1000));
        shared[1].fetch_add (1);
        if (worker >= 0) saveResult ();
    }
}

static void endState (State &S) { S.ended = true; throw Stop (); }

static void incon (State &S, const std::string &m)
{
    std::string loc; collectStack (S, loc);
    if (inconclusive.size () < 50) inconclusive.insert (m + " at " + loc.substr (0, 600));
}

static bool refreshModel (State &S);

// an error on this path (the path condition itself is the counterexample)
static void pathError (State &S, const std::string &kind, const std::string &msg)
{
    if (!S.modelReal)
    {
        std::shared_ptr<Assign> m;
        int r = query (S, mk_const (1, 1), &m, true);
        if (r == 0) { ++st.infeasible; endState (S); }
        if (r == 1) { S.model = m; S.modelReal = true; }
        else { incon (S, "undecided feasibility of: " + msg); endState (S); }
    }
    recordViolation (S, kind, msg, S.model.get (), true);
    endState (S);
}

static void addPc (State &S, E c)
{
    if (is_const (c)) return;
    // split conjunctions
    if (c->op == AND && c->w == 1) { addPc (S, c->a[0]); addPc (S, c->a[1]); return; }
    S.pc.push_back (c);
    if (c->op == XOR && is_const (c->a[1])) S.conc[c->a[0]] = 0;
    else S.conc[c] = 1;
    if (c->op == EQ && is_const (c->a[1]) && c->a[0]->w <= 64) S.conc[c->a[0]] = c->a[1]->lo;
    // not (a < 1)-style information is left to the solver
}

static E subst1 (State &S, E e)
{
    auto it = S.conc.find (e);
    if (it != S.conc.end ()) return mk_const (e->w, it->second);
    if (e->w == 1 && e->op == XOR && is_const (e->a[1]))
    {
        it = S.conc.find (e->a[0]);
        if (it != S.conc.end ()) return mk_const (1, it->second ^ 1);
    }
    return e;
}

// Make v concrete in S.  Forks the state over all feasible values; when more than one exists the
// current state is replaced by its children, which re-execute the instruction.
static u64 concretize (State &S, const V &v, unsigned w, const char *why, unsigned cap = 0)
{
    if (!v.e) return v.c;
    E e = subst1 (S, v.e);
    if (is_const (e)) return e->lo;
    if (!cap) cap = opt.concCap;
    std::vector<std::pair<u64, std::pair<std::shared_ptr<Assign>, bool>>> vals;
    std::vector<E> excl;
    E block = mk_const (1, 1);
    if (S.modelReal && S.model)
    {
        u64 x = (u64) S.model->eval (e);
        vals.push_back ({x, {S.model, true}});
        block = mk_not (mk_eq (e, mk_const (e->w, x)));
    }
    bool over = false, unk = false;
    while (true)
    {
        if (w == 1 && vals.size () == 2) break;
        if (is_const (block) && !block->lo) break;
        std::shared_ptr<Assign> m;
        int r = query (S, block, &m, false);
        if (r == 0) break;
        if (r == 1)
        {
            u64 x = (u64) m->eval (e);
            vals.push_back ({x, {m, true}});
            block = mk (AND, 1, block, mk_not (mk_eq (e, mk_const (e->w, x))));
        }
        else
        {
            // feasible in the abstraction only: take the abstract value of e
            if (w == 1)
            {
                // the other truth value(s)
                bool have[2] = {false, false};
                for (auto &p : vals) have[p.first & 1] = true;
                if (!have[0] && !have[1])
                {
                    // try each separately
                    for (u64 b = 0; b < 2; ++b)
                    {
                        std::shared_ptr<Assign> mm;
                        int rr = query (S, mk_eq (e, mk_const (1, b)), &mm, false);
                        if (rr == 1) vals.push_back ({b, {mm, true}});
                        else if (rr != 0) vals.push_back ({b, {S.model, false}});
                    }
                    break;
                }
                vals.push_back ({have[0] ? 1ull : 0ull, {S.model, false}});
                break;
            }
            // ask z3 for the value of e itself
            sol.sync (S.pc);
            Z3_solver_push (sol.ctx, sol.s);
            Z3_solver_assert (sol.ctx, sol.s, sol.low.lower (block));
            Z3_lbool zr = Z3_solver_check (sol.ctx, sol.s);
            u64 x = 0; bool ok = false;
            if (zr == Z3_L_TRUE)
            {
                Z3_model zm = Z3_solver_get_model (sol.ctx, sol.s);
                Z3_model_inc_ref (sol.ctx, zm);
                Z3_ast o = nullptr;
                if (Z3_model_eval (sol.ctx, zm, sol.low.bv (e), true, &o) && Z3_get_numeral_uint64 (sol.ctx, o, &x)) ok = true;
                Z3_model_dec_ref (sol.ctx, zm);
            }
            Z3_solver_pop (sol.ctx, sol.s, 1);
            if (!ok) { unk = true; break; }
            vals.push_back ({x, {S.model, false}});
            block = mk (AND, 1, block, mk_not (mk_eq (e, mk_const (e->w, x))));
        }
        if (vals.size () > cap) { over = true; break; }
    }
    if (vals.empty ()) { if (unk) incon (S, std::string ("solver gave up: ") + why); ++st.infeasible; endState (S); }
    if (over) incon (S, std::string ("more than ") + std::to_string (cap) + " values for " + why + " " + expr_str (e, 4).substr (0, 200));
    if (unk) incon (S, std::string ("solver gave up: ") + why);
    if (vals.size () == 1)
    {
        S.conc[e] = vals[0].first;
        if (!over && !unk) { /* implied by pc */ }
        else addPc (S, mk_eq (e, mk_const (e->w, vals[0].first)));
        S.model = vals[0].second.first; S.modelReal = vals[0].second.second;
        return vals[0].first;
    }
    st.forks += vals.size () - 1;
    static const char *showForks = getenv ("VSX_FORKS");
    if (showForks) { std::string loc; collectStack (S, loc); fprintf (stderr, "fork %zu %s %s | %s\n", vals.size (), why, loc.substr (0, 200).c_str (), expr_str (e, 4).substr (0, 150).c_str ()); }
    for (size_t i = vals.size (); i-- > 0;)
    {
        State *n = new State (S);
        addPc (*n, mk_eq (e, mk_const (e->w, vals[i].first)));
        n->conc[e] = vals[i].first;
        n->model = vals[i].second.first; n->modelReal = vals[i].second.second;
        work.push_back (n);
    }
    S.ended = true;
    throw Stop ();
}

// ---- memory
static Obj *newObj (State &S, u64 size, int kind, u64 align = 16)
{
    if (align < 16) align = 16;
    u64 b = (S.top + align - 1) & ~(align - 1);
    Obj *o = new Obj;
    o->base = b; o->size = size; o->kind = kind;
    o->c.resize (size);
    S.top = b + size + 32;
    S.mem.push_back (o);
    S.memBase.push_back (b);
    return o;
}

static int findIdx (State &S, u64 addr)
{
    auto it = std::upper_bound (S.memBase.begin (), S.memBase.end (), addr);
    if (it == S.memBase.begin ()) return -1;
    return (int) (it - S.memBase.begin ()) - 1;
}

static void compactMem (State &S)
{
    if (S.dead < 64 || S.dead * 2 < S.mem.size ()) return;
    size_t j = 0;
    for (size_t i = 0; i < S.mem.size (); ++i) if (S.mem[i]) { S.mem[j] = S.mem[i]; S.memBase[j] = S.memBase[i]; ++j; }
    S.mem.resize (j); S.memBase.resize (j); S.dead = 0;
}

static void freeObj (State &S, int i)
{
    Obj *o = S.mem[i];
    if (--o->rc == 0) delete o;
    S.mem[i] = nullptr; ++S.dead;
}

static std::string describe (State &S, u64 addr)
{
    char b[128];
    int i = findIdx (S, addr);
    if (i < 0 || addr < 4096) { snprintf (b, sizeof b, "0x%llx (null or unmapped)", (unsigned long long) addr); return b; }
    if (!S.mem[i]) { snprintf (b, sizeof b, "freed block"); return b; }
    snprintf (b, sizeof b, "offset %lld of %llu-byte block (kind %d)", (long long) (addr - S.memBase[i]), (unsigned long long) S.mem[i]->size, S.mem[i]->kind);
    return b;
}

static Obj *access (State &S, u64 addr, u64 n, bool write)
{
    int i = addr < 4096 ? -1 : findIdx (S, addr);
    if (i < 0 || !S.mem[i] || addr + n > S.mem[i]->base + S.mem[i]->size || addr + n < addr)
        pathError (S, "memory", std::string (write ? "invalid write of " : "invalid read of ") + std::to_string (n) + " bytes at " + describe (S, addr));
    Obj *o = S.mem[i];
    if (write)
    {
        if (o->ro || o->kind == 3) pathError (S, "memory", "write to read-only memory");
        if (o->rc > 1)
        {
            Obj *c = new Obj (*o);
            c->rc = 1; --o->rc;
            S.mem[i] = c; o = c;
        }
    }
    return o;
}

static void race (State &S, u64 addr, u64 n, bool write)
{
    Par &P = *S.par;
    if (!S.raceOn || addr >= P.top0) return;
    for (u64 a = addr; a < addr + n; ++a)
    {
        Shadow &s = P.sh[a];
        bool bad = false;
        if (s.wt >= 0 && s.wt != S.tid && !(S.lock && (s.wl & S.lock))) bad = true;
        if (write && s.rt >= 0 && (s.rt != S.tid || s.rmulti) && !(S.lock && (s.rl & S.lock))) bad = true;
        if (bad) pathError (S, "race", "unsynchronised access by two threads");
        if (write) { if (s.wt < 0) s.wl = S.lock; else s.wl &= S.lock; s.wt = S.tid; }
        else { if (s.rt < 0) s.rl = S.lock; else { s.rl &= S.lock; if (s.rt != S.tid) s.rmulti = true; } s.rt = S.tid; }
    }
}

static E byteExpr (const Obj *o, u64 i)
{
    if (o->s.empty () || !o->s[i].e) return mk_const (8, o->c[i]);
    return mk_extract (o->s[i].e, o->s[i].idx * 8, 8);
}

static V readMem (State &S, u64 addr, unsigned w)
{
    u64 n = (w + 7) / 8;
    Obj *o = access (S, addr, n, false);
    if (S.par) race (S, addr, n, false);
    u64 off = addr - o->base;
    bool sym = false;
    if (!o->s.empty ()) for (u64 i = 0; i < n; ++i) if (o->s[off + i].e) { sym = true; break; }
    if (!sym)
    {
        if (n <= 8)
        {
            u64 v = 0; memcpy (&v, &o->c[off], n);
            return V (v & mask64 (w));
        }
        u128 v = 0; memcpy (&v, &o->c[off], n > 16 ? 16 : n);
        if (n > 16) throw Unsupported {"load wider than 128 bits"};
        return mkV (mk_const (w, v));
    }
    SB &s0 = o->s[off];
    if (s0.e && s0.idx == 0 && s0.e->w == n * 8)
    {
        bool same = true;
        for (u64 i = 1; i < n; ++i) if (o->s[off + i].e != s0.e || o->s[off + i].idx != i) { same = false; break; }
        if (same)
        {
            E e = s0.e;
            if (w != n * 8) e = mk_extract (e, 0, w);
            return mkV (e);
        }
    }
    E e = nullptr;
    // group runs
    for (u64 i = 0; i < n;)
    {
        E part;
        if (o->s[off + i].e)
        {
            E src = o->s[off + i].e; unsigned b = o->s[off + i].idx; u64 k = 1;
            while (i + k < n && o->s[off + i + k].e == src && o->s[off + i + k].idx == b + k) ++k;
            part = mk_extract (src, b * 8, k * 8);
            i += k;
        }
        else
        {
            u128 v = 0; u64 k = 0;
            while (i + k < n && !o->s[off + i + k].e) { v |= (u128) o->c[off + i + k] << (8 * k); ++k; }
            part = mk_const (k * 8, v);
            i += k;
        }
        e = e ? mk_concat (part, e) : part;
    }
    if (e->w != w) e = mk_extract (e, 0, w);
    return mkV (e);
}

static void writeMem (State &S, u64 addr, unsigned w, const V &v)
{
    u64 n = (w + 7) / 8;
    Obj *o = access (S, addr, n, true);
    if (S.par) race (S, addr, n, true);
    u64 off = addr - o->base;
    if (!v.e || is_const (v.e))
    {
        u128 x = v.e ? cval (v.e) : v.c;
        if (w < 128) x &= mask128 (w);
        memcpy (&o->c[off], &x, n);
        if (!o->s.empty ()) for (u64 i = 0; i < n; ++i) o->s[off + i].e = nullptr;
        return;
    }
    E e = v.e;
    if (e->w != n * 8) e = mk_zext (e, n * 8);
    if (o->s.empty ()) o->s.resize (o->size, SB {nullptr, 0});
    // store through so that extracts of a larger value keep referring to it
    if (e->op == EXTRACT && e->aux % 8 == 0 && e->a[0]->w % 8 == 0)
    {
        for (u64 i = 0; i < n; ++i) o->s[off + i] = SB {e->a[0], (uint32_t) (e->aux / 8 + i)};
        return;
    }
    for (u64 i = 0; i < n; ++i) o->s[off + i] = SB {e, (uint32_t) i};
}

static void copyMem (State &S, u64 dst, u64 src, u64 n)
{
    if (n == 0 || dst == src) return;
    Obj *so = access (S, src, n, false);
    if (S.par) race (S, src, n, false);
    std::vector<uint8_t> c (so->c.begin () + (src - so->base), so->c.begin () + (src - so->base) + n);
    std::vector<SB> sb;
    if (!so->s.empty ())
    {
        sb.assign (so->s.begin () + (src - so->base), so->s.begin () + (src - so->base) + n);
        bool any = false;
        for (auto &x : sb) if (x.e) { any = true; break; }
        if (!any) sb.clear ();
    }
    Obj *d = access (S, dst, n, true);
    if (S.par) race (S, dst, n, true);
    u64 off = dst - d->base;
    memcpy (&d->c[off], c.data (), n);
    if (!sb.empty ())
    {
        if (d->s.empty ()) d->s.resize (d->size, SB {nullptr, 0});
        std::copy (sb.begin (), sb.end (), d->s.begin () + off);
    }
    else if (!d->s.empty ()) for (u64 i = 0; i < n; ++i) d->s[off + i].e = nullptr;
}

static std::string cstr (State &S, u64 addr)
{
    std::string s;
    while (true)
    {
        V v = readMem (S, addr++, 8);
        u64 c = concretize (S, v, 8, "C string");
        if (!c) break;
        s += (char) c;
        if (s.size () > 100000) break;
    }
    return s;
}

// address operand: concrete, or forked
static u64 addrOf (State &S, const V &v, const char *why) { return concretize (S, v, 64, why); }

// Loads through a symbolic address inside one small constant-size object become an if-then-else.
static bool symLoad (State &S, E a, unsigned w, V &out)
{
    a = subst1 (S, a);
    if (is_const (a)) return false;
    if (!S.modelReal || !S.model) return false;
    u64 guess = (u64) S.model->eval (a);
    int i = findIdx (S, guess);
    if (i < 0 || !S.mem[i]) return false;
    Obj *o = S.mem[i];
    u64 n = (w + 7) / 8;
    if (o->size > 2048 || o->size < n || S.par) return false;
    // whole range inside the object?
    E off = mk (SUB, 64, a, mk_const (64, o->base));
    E inb = mk (ULE, 1, off, mk_const (64, o->size - n));
    if (!(is_const (inb) && inb->lo))
    {
        int r = query (S, mk_not (inb), nullptr, false);
        if (r != 0) return false; // let concretisation find the error
    }
    // stride: all feasible offsets congruent to the guess modulo n?
    u64 g = guess - o->base;
    u64 stride = 1;
    if (n > 1)
    {
        E mis = mk_not (mk_eq (mk (UREM, 64, off, mk_const (64, n)), mk_const (64, g % n)));
        if (query (S, mis, nullptr, false) == 0) stride = n;
    }
    if (o->size / stride > 300) return false;
    E r = nullptr;
    for (u64 k = g % stride; k + n <= o->size; k += stride)
    {
        V v = readMem (S, o->base + k, w);
        E ve = toE (v, w);
        r = r ? mk_ite (mk_eq (off, mk_const (64, k)), ve, r) : ve;
    }
    if (!r) return false;
    out = mkV (r);
    return true;
}

// ---- control
static void gotoBB (State &S, Frame &f, int bb)
{
    Fn &fn = *f.f;
    int from = f.curBB;
    const BasicBlock *fromB = fn.bbs[from];
    f.prevBB = from; f.curBB = bb;
    int pc = fn.bbStart[bb];
    // phis
    struct Tmp { int dst; unsigned n; V v[4]; };
    std::vector<std::pair<int, V>> upd;
    while (fn.code[pc].op == Instruction::PHI)
    {
        Ins &x = fn.code[pc];
        auto *p = cast<PHINode> (x.I);
        if (x.ops.empty ())
        {
            // lazily compiled operands: resolved through a per-phi cache
        }
        const Value *iv = p->getIncomingValueForBlock (fromB);
        if (auto *c = dyn_cast<Constant> (iv))
        {
            auto it = constMemo.find (c);
            if (it == constMemo.end ())
            {
                constPool.emplace_back (); evalConst (c, constPool.back ());
                if (constPool.back ().empty ()) constPool.back ().push_back (V (0));
                it = constMemo.emplace (c, constPool.back ().data ()).first;
            }
            for (unsigned k = 0; k < x.leaves; ++k) upd.push_back ({x.dst + (int) k, it->second[k]});
        }
        else
        {
            int s = -1;
            if (auto *a = dyn_cast<Argument> (iv)) s = fn.argSlot[a->getArgNo ()];
            else
            {
                static std::unordered_map<const Value *, int> slots;
                auto it = slots.find (iv);
                if (it == slots.end ())
                {
                    for (auto &y : fn.code) if (y.dst >= 0) slots[y.I] = y.dst;
                    it = slots.find (iv);
                }
                s = it->second;
            }
            for (unsigned k = 0; k < x.leaves; ++k) upd.push_back ({x.dst + (int) k, f.regs[s + k]});
        }
        ++pc;
    }
    for (auto &u : upd) f.regs[u.first] = u.second;
    f.pc = pc;
}

static void pushFrame (State &S, Fn *fn, const std::vector<V> &args)
{
    compile (*fn);
    if (S.st.size () > 3000) pathError (S, "stack", "call depth exceeds 3000 frames");
    S.st.emplace_back ();
    Frame &f = S.st.back ();
    f.f = fn; f.regs.resize (fn->nregs);
    size_t na = 0;
    for (auto &a : fn->F->args ()) na += leavesOf (a.getType ());
    for (size_t i = 0; i < args.size (); ++i)
    {
        if (i < na) f.regs[i] = args[i];
        else f.varargs.push_back (args[i]);
    }
    f.pc = 0; f.curBB = 0;
    // entry block has no phis
}

static void popFrame (State &S)
{
    Frame &f = S.st.back ();
    for (u64 a : f.allocas)
    {
        int i = findIdx (S, a);
        if (i >= 0 && S.mem[i] && S.memBase[i] == a) freeObj (S, i);
    }
    S.st.pop_back ();
    compactMem (S);
}

static void advance (State &S)
{
    Frame &f = S.st.back ();
    Ins &x = f.f->code[f.pc];
    if (x.op == Instruction::Invoke) gotoBB (S, f, x.bb0);
    else ++f.pc;
}

// ---- typeinfo matching
static u64 extVtSI = 0, extVtVMI = 0;
static bool tiMatch (State &S, u64 thrown, u64 want, int depth = 0)
{
    if (thrown == want) return true;
    if (depth > 8) return false;
    // same name (distinct weak copies do not exist in one linked module)
    u64 vt = readMem (S, thrown, 64).c;
    if (vt == extVtSI) return tiMatch (S, readMem (S, thrown + 16, 64).c, want, depth + 1);
    if (vt == extVtVMI)
    {
        u64 n = readMem (S, thrown + 20, 32).c;
        for (u64 i = 0; i < n; ++i) if (tiMatch (S, readMem (S, thrown + 24 + 16 * i, 64).c, want, depth + 1)) return true;
    }
    return false;
}

static u64 selectorOf (u64 ti) { return (ti & 0x7fffffff); }

static void parThreadEnd (State &S);

static void unwind (State &S)
{
    // S.pendExc / S.pendTi set; pop frames until an invoke handles it
    std::string where;
    while (true)
    {
        if (S.st.empty ()) break;
        Frame &f = S.st.back ();
        Ins &x = f.f->code[f.pc];
        if (x.op == Instruction::Invoke)
        {
            const BasicBlock *ub = cast<InvokeInst> (x.I)->getUnwindDest ();
            const LandingPadInst *lp = ub->getLandingPadInst ();
            int64_t sel = -1;
            for (unsigned i = 0; i < lp->getNumClauses () && sel < 0; ++i)
            {
                Constant *c = lp->getClause (i);
                if (lp->isCatch (i))
                {
                    u64 ti = isa<ConstantPointerNull> (c) ? 0 : constAddr (c);
                    if (ti == 0) sel = selectorOf (1);
                    else if (tiMatch (S, S.pendTi, ti)) sel = selectorOf (ti);
                }
                else
                {
                    // filter: match when the thrown type is not listed
                    bool listed = false;
                    if (auto *ca = dyn_cast<ConstantArray> (c))
                        for (auto &o : ca->operands ()) if (tiMatch (S, S.pendTi, constAddr (cast<Constant> (o)))) listed = true;
                    if (!listed) sel = 0x7ffffffe;
                }
            }
            if (sel < 0 && lp->isCleanup ()) sel = 0;
            if (sel >= 0)
            {
                gotoBB (S, f, x.bb1);
                Ins &l = f.f->code[f.pc];
                f.regs[l.dst] = V (S.pendExc);
                f.regs[l.dst + 1] = V ((u64) sel);
                ++f.pc;
                return;
            }
        }
        if (f.kind == 1 || S.st.size () == 1)
        {
            std::string tn = addrName.count (S.pendTi) ? addrName[S.pendTi] : "?";
            pathError (S, "uncaught", "uncaught exception " + demangle (tn) + (f.kind == 1 ? " leaves a parallel region" : ""));
        }
        popFrame (S);
    }
}

// ---- the interpreter proper
static inline V get (Frame &f, const Opnd &o, unsigned k = 0) { return o.k ? o.k[k] : f.regs[o.slot + k]; }

static V binop (State &S, unsigned opc, unsigned w, const V &a, const V &b, const Instruction *I)
{
    Op op;
    switch (opc)
    {
        case Instruction::Add: op = ADD; break;
        case Instruction::Sub: op = SUB; break;
        case Instruction::Mul: op = MUL; break;
        case Instruction::UDiv: op = UDIV; break;
        case Instruction::SDiv: op = SDIV; break;
        case Instruction::URem: op = UREM; break;
        case Instruction::SRem: op = SREM; break;
        case Instruction::And: op = AND; break;
        case Instruction::Or: op = OR; break;
        case Instruction::Xor: op = XOR; break;
        case Instruction::Shl: op = SHL; break;
        case Instruction::LShr: op = LSHR; break;
        case Instruction::AShr: op = ASHR; break;
        case Instruction::FAdd: op = FADD; break;
        case Instruction::FSub: op = FSUB; break;
        case Instruction::FMul: op = FMUL; break;
        case Instruction::FDiv: op = FDIV; break;
        case Instruction::FRem: op = FREM; break;
        default: throw Unsupported {"binop"};
    }
    if (op == UDIV || op == SDIV || op == UREM || op == SREM)
    {
        if (!b.e && b.c == 0) pathError (S, "arith", "division by zero");
        if (b.e)
        {
            E z = mk_eq (b.e, mk_const (w, 0));
            V zv = mkV (z);
            if (zv.e) { u64 isz = concretize (S, zv, 1, "division by zero test"); if (isz) pathError (S, "arith", "division by zero"); }
            else if (zv.c) pathError (S, "arith", "division by zero");
        }
    }
    if (!a.e && !b.e && w <= 64) return V (fold2 (op, w, w, a.c, b.c));
    return mkV (mk (op, w, toE (a, w), toE (b, w)));
}

static V castop (unsigned opc, unsigned fw, unsigned tw, const V &a)
{
    switch (opc)
    {
        case Instruction::Trunc:
            if (!a.e) return V (a.c & mask64 (tw));
            return mkV (mk_extract (a.e, 0, tw));
        case Instruction::ZExt:
            if (!a.e && tw <= 64) return a;
            return mkV (mk_zext (toE (a, fw), tw));
        case Instruction::SExt:
            if (!a.e && tw <= 64) return V ((u64) sext64 (a.c, fw) & mask64 (tw));
            return mkV (mk_sext (toE (a, fw), tw));
        case Instruction::PtrToInt: case Instruction::IntToPtr:
            if (tw < fw) return castop (Instruction::Trunc, fw, tw, a);
            if (tw > fw) return castop (Instruction::ZExt, fw, tw, a);
            return a;
        case Instruction::BitCast: return a;
        default: break;
    }
    Op op;
    switch (opc)
    {
        case Instruction::FPToSI: op = FPTOSI; break;
        case Instruction::FPToUI: op = FPTOUI; break;
        case Instruction::SIToFP: op = SITOFP; break;
        case Instruction::UIToFP: op = UITOFP; break;
        case Instruction::FPExt: op = FPEXT; break;
        case Instruction::FPTrunc: op = FPTRUNC; break;
        default: throw Unsupported {"cast"};
    }
    if (fw == 80 || tw == 80) throw Unsupported {"x87 long double"};
    return mkV (mk (op, tw, toE (a, fw)));
}

static V icmp (CmpInst::Predicate p, unsigned w, const V &a, const V &b)
{
    Op op; bool sw = false, neg = false;
    switch (p)
    {
        case CmpInst::ICMP_EQ: op = EQ; break;
        case CmpInst::ICMP_NE: op = EQ; neg = true; break;
        case CmpInst::ICMP_ULT: op = ULT; break;
        case CmpInst::ICMP_UGT: op = ULT; sw = true; break;
        case CmpInst::ICMP_ULE: op = ULE; break;
        case CmpInst::ICMP_UGE: op = ULE; sw = true; break;
        case CmpInst::ICMP_SLT: op = SLT; break;
        case CmpInst::ICMP_SGT: op = SLT; sw = true; break;
        case CmpInst::ICMP_SLE: op = SLE; break;
        case CmpInst::ICMP_SGE: op = SLE; sw = true; break;
        default: throw Unsupported {"icmp"};
    }
    const V &x = sw ? b : a, &y = sw ? a : b;
    if (!x.e && !y.e) return V (fold2 (op, 1, w, x.c, y.c) ^ (neg ? 1 : 0));
    E e = mk (op, 1, toE (x, w), toE (y, w));
    if (neg) e = mk_not (e);
    return mkV (e);
}

static V fcmp (CmpInst::Predicate p, unsigned w, const V &a, const V &b)
{
    if (w == 80) throw Unsupported {"x87 compare"};
    E x = toE (a, w), y = toE (b, w);
    auto F = [&] (Op o, E l, E r) { return mk (o, 1, l, r); };
    E e;
    switch (p)
    {
        case CmpInst::FCMP_FALSE: return V (0);
        case CmpInst::FCMP_TRUE: return V (1);
        case CmpInst::FCMP_OEQ: e = F (FOEQ, x, y); break;
        case CmpInst::FCMP_OGT: e = F (FOLT, y, x); break;
        case CmpInst::FCMP_OGE: e = F (FOLE, y, x); break;
        case CmpInst::FCMP_OLT: e = F (FOLT, x, y); break;
        case CmpInst::FCMP_OLE: e = F (FOLE, x, y); break;
        case CmpInst::FCMP_ONE: e = mk (AND, 1, mk_not (F (FOEQ, x, y)), mk_not (F (FUNO, x, y))); break;
        case CmpInst::FCMP_ORD: e = mk_not (F (FUNO, x, y)); break;
        case CmpInst::FCMP_UNO: e = F (FUNO, x, y); break;
        case CmpInst::FCMP_UEQ: e = mk (OR, 1, F (FOEQ, x, y), F (FUNO, x, y)); break;
        case CmpInst::FCMP_UGT: e = mk_not (F (FOLE, x, y)); break;
        case CmpInst::FCMP_UGE: e = mk_not (F (FOLT, x, y)); break;
        case CmpInst::FCMP_ULT: e = mk_not (F (FOLE, y, x)); break;
        case CmpInst::FCMP_ULE: e = mk_not (F (FOLT, y, x)); break;
        case CmpInst::FCMP_UNE: e = mk_not (F (FOEQ, x, y)); break;
        default: throw Unsupported {"fcmp"};
    }
    return mkV (e);
}

static bool branchOn (State &S, const V &c, const char *why)
{
    if (!c.e) return c.c & 1;
    return concretize (S, c, 1, why) & 1;
}

static void doCall (State &S, Frame &f, Ins &x);

static void retTo (State &S, const std::vector<V> &rv)
{
    // frame already popped; deliver rv to the call instruction of the caller
    Frame &f = S.st.back ();
    Ins &x = f.f->code[f.pc];
    if (x.dst >= 0) for (unsigned k = 0; k < x.leaves && k < rv.size (); ++k) f.regs[x.dst + k] = rv[k];
    advance (S);
}

static void pathDone (State &S);

static void step (State &S)
{
    Frame &f = S.st.back ();
    Ins &x = f.f->code[f.pc];
    if (opt.trace) { std::string s; raw_string_ostream os (s); x.I->print (os); fprintf (stderr, "[%zu] %s\n", S.st.size (), s.c_str ()); }
    switch (x.op)
    {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
            if (x.w == 80) throw Unsupported {"x87 arithmetic at " + locOf (x.I)};
            for (unsigned k = 0; k < x.leaves; ++k)
            {
                V r = binop (S, x.op, x.w, get (f, x.ops[0], k), get (f, x.ops[1], k), x.I);
                f.regs[x.dst + k] = r;
            }
            ++f.pc; return;
        case Instruction::FNeg:
            for (unsigned k = 0; k < x.leaves; ++k)
                f.regs[x.dst + k] = binop (S, Instruction::Xor, x.w, get (f, x.ops[0], k), V (x.w == 32 ? 0x80000000ull : 0x8000000000000000ull), x.I);
            ++f.pc; return;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr:
        case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPExt: case Instruction::FPTrunc:
            for (unsigned k = 0; k < x.leaves; ++k)
                f.regs[x.dst + k] = castop (x.op, x.ow[0], x.w, get (f, x.ops[0], k));
            ++f.pc; return;
        case Instruction::BitCast: {
            unsigned fl = leavesOf (cast<BitCastInst> (x.I)->getOperand (0)->getType ());
            if (fl == x.leaves) { for (unsigned k = 0; k < fl; ++k) f.regs[x.dst + k] = get (f, x.ops[0], k); }
            else
            {
                // reassemble through one wide value
                E e = nullptr;
                for (unsigned k = 0; k < fl; ++k) { E p = toE (get (f, x.ops[0], k), x.ow[0]); e = e ? mk_concat (p, e) : p; }
                for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = mkV (mk_extract (e, k * x.w, x.w));
            }
            ++f.pc; return;
        }
        case Instruction::Freeze:
            for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = get (f, x.ops[0], k);
            ++f.pc; return;
        case Instruction::ICmp:
            for (unsigned k = 0; k < x.leaves; ++k)
                f.regs[x.dst + k] = icmp (cast<CmpInst> (x.I)->getPredicate (), x.ow[0], get (f, x.ops[0], k), get (f, x.ops[1], k));
            ++f.pc; return;
        case Instruction::FCmp:
            for (unsigned k = 0; k < x.leaves; ++k)
                f.regs[x.dst + k] = fcmp (cast<CmpInst> (x.I)->getPredicate (), x.ow[0], get (f, x.ops[0], k), get (f, x.ops[1], k));
            ++f.pc; return;
        case Instruction::Select: {
            bool vc = cast<SelectInst> (x.I)->getCondition ()->getType ()->isVectorTy ();
            std::vector<std::pair<u64, unsigned>> lay; flattenReg (x.I->getType (), lay);
            std::vector<V> r (x.leaves);
            for (unsigned k = 0; k < x.leaves; ++k)
            {
                V c = get (f, x.ops[0], vc ? k : 0), a = get (f, x.ops[1], k), b = get (f, x.ops[2], k);
                if (!c.e) r[k] = (c.c & 1) ? a : b;
                else
                {
                    E ce = subst1 (S, c.e);
                    r[k] = mkV (mk_ite (ce, toE (a, lay[k].second), toE (b, lay[k].second)));
                }
            }
            for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = r[k];
            ++f.pc; return;
        }
        case Instruction::Br:
            if (x.bb1 < 0) { gotoBB (S, f, x.bb0); return; }
            else
            {
                bool c = branchOn (S, get (f, x.ops[0]), "branch");
                gotoBB (S, f, c ? x.bb0 : x.bb1);
                return;
            }
        case Instruction::Switch: {
            auto *sw = cast<SwitchInst> (x.I);
            V v = get (f, x.ops[0]);
            if (v.e)
            {
                E e = subst1 (S, v.e);
                if (is_const (e)) v = mkV (e);
            }
            if (!v.e)
            {
                auto c = sw->findCaseValue (ConstantInt::get (cast<IntegerType> (sw->getCondition ()->getType ()), v.c));
                const BasicBlock *d = c == sw->case_default () ? sw->getDefaultDest () : c->getCaseSuccessor ();
                gotoBB (S, f, f.f->bbIdx[d]);
                return;
            }
            // symbolic: walk the cases with boolean forks
            for (auto c : sw->cases ())
            {
                E q = mk_eq (v.e, mk_const (x.ow[0], c.getCaseValue ()->getZExtValue ()));
                if (branchOn (S, mkV (q), "switch")) { gotoBB (S, f, f.f->bbIdx[c.getCaseSuccessor ()]); return; }
            }
            gotoBB (S, f, f.f->bbIdx[sw->getDefaultDest ()]);
            return;
        }
        case Instruction::GetElementPtr: {
            V b = get (f, x.ops[0]);
            if (!b.e)
            {
                u64 a = b.c + x.off; bool sym = false;
                for (auto &g : x.gepv) { V i = get (f, x.ops[g.first]); if (i.e) { sym = true; break; } a += (u64) sext64 (i.c, x.ow[g.first]) * g.second; }
                if (!sym) { f.regs[x.dst] = V (a); ++f.pc; return; }
            }
            E e = mk (ADD, 64, toE (b, 64), mk_const (64, (u64) x.off));
            for (auto &g : x.gepv)
            {
                V i = get (f, x.ops[g.first]);
                E ie = mk_sext (toE (i, x.ow[g.first]), 64);
                if (x.ow[g.first] > 64) ie = mk_extract (ie, 0, 64);
                e = mk (ADD, 64, e, mk (MUL, 64, ie, mk_const (64, (u64) g.second)));
            }
            f.regs[x.dst] = mkV (e);
            ++f.pc; return;
        }
        case Instruction::Alloca: {
            u64 n = concretize (S, get (f, x.ops[0]), 64, "alloca size");
            Obj *o = newObj (S, n * x.off, 1, cast<AllocaInst> (x.I)->getAlign ().value ());
            f.allocas.push_back (o->base);
            f.regs[x.dst] = V (o->base);
            ++f.pc; return;
        }
        case Instruction::Load: {
            V a = get (f, x.ops[0]);
            if (a.e && x.lay.size () == 1)
            {
                V r;
                if (symLoad (S, a.e, x.lay[0].second, r)) { f.regs[x.dst] = r; ++f.pc; return; }
            }
            u64 ad = addrOf (S, a, "load address");
            for (unsigned k = 0; k < x.lay.size (); ++k)
            {
                V r = readMem (S, ad + x.lay[k].first, x.lay[k].second);
                f.regs[x.dst + k] = r;
            }
            ++f.pc; return;
        }
        case Instruction::Store: {
            u64 ad = addrOf (S, get (f, x.ops[0]), "store address");
            for (unsigned k = 0; k < x.lay.size (); ++k) writeMem (S, ad + x.lay[k].first, x.lay[k].second, get (f, x.ops[1], k));
            ++f.pc; return;
        }
        case Instruction::ExtractValue: {
            for (unsigned k = 0; k < x.subn; ++k) f.regs[x.dst + k] = get (f, x.ops[0], x.sub + k);
            ++f.pc; return;
        }
        case Instruction::InsertValue: {
            for (unsigned k = 0; k < x.leaves; ++k)
                f.regs[x.dst + k] = (k >= x.sub && k < x.sub + x.subn) ? get (f, x.ops[1], k - x.sub) : get (f, x.ops[0], k);
            ++f.pc; return;
        }
        case Instruction::ExtractElement: {
            u64 i = concretize (S, get (f, x.ops[1]), x.ow[1], "vector index");
            f.regs[x.dst] = get (f, x.ops[0], i);
            ++f.pc; return;
        }
        case Instruction::InsertElement: {
            u64 i = concretize (S, get (f, x.ops[2]), x.ow[2], "vector index");
            for (unsigned k = 0; k < x.leaves; ++k) f.regs[x.dst + k] = k == i ? get (f, x.ops[1]) : get (f, x.ops[0], k);
            ++f.pc; return;
        }
        case Instruction::ShuffleVector: {
            auto *sv = cast<ShuffleVectorInst> (x.I);
            unsigned n = leavesOf (sv->getOperand (0)->getType ());
            std::vector<V> r;
            for (int m : sv->getShuffleMask ()) r.push_back (m < 0 ? V (0) : (unsigned) m < n ? get (f, x.ops[0], m) : get (f, x.ops[1], m - n));
            for (unsigned k = 0; k < r.size (); ++k) f.regs[x.dst + k] = r[k];
            ++f.pc; return;
        }
        case Instruction::Ret: {
            std::vector<V> rv;
            if (!x.ops.empty ())
            {
                unsigned n = leavesOf (cast<ReturnInst> (x.I)->getReturnValue ()->getType ());
                for (unsigned k = 0; k < n; ++k) rv.push_back (get (f, x.ops[0], k));
            }
            if (f.kind == 1) { parThreadEnd (S); return; }
            popFrame (S);
            if (S.st.empty ()) { pathDone (S); return; }
            retTo (S, rv);
            return;
        }
        case Instruction::Call: case Instruction::Invoke:
            doCall (S, f, x);
            return;
        case Instruction::Resume:
            S.pendExc = get (f, x.ops[0], 0).c;
            S.pendTi = S.excTi[S.pendExc];
            popFrame (S);
            if (S.st.empty ()) pathError (S, "uncaught", "uncaught exception");
            unwind (S);
            return;
        case Instruction::Unreachable:
            pathError (S, "unreachable", "execution reaches an unreachable statement");
            return;
        case Instruction::Fence: ++f.pc; return;
        case Instruction::AtomicRMW: {
            auto *rm = cast<AtomicRMWInst> (x.I);
            u64 ad = addrOf (S, get (f, x.ops[0]), "atomic address");
            uint32_t sl = S.lock; S.lock |= 0x80000000u;
            V old = readMem (S, ad, x.w), v = get (f, x.ops[1]);
            V nv;
            switch (rm->getOperation ())
            {
                case AtomicRMWInst::Xchg: nv = v; break;
                case AtomicRMWInst::Add: nv = binop (S, Instruction::Add, x.w, old, v, x.I); break;
                case AtomicRMWInst::Sub: nv = binop (S, Instruction::Sub, x.w, old, v, x.I); break;
                case AtomicRMWInst::And: nv = binop (S, Instruction::And, x.w, old, v, x.I); break;
                case AtomicRMWInst::Or: nv = binop (S, Instruction::Or, x.w, old, v, x.I); break;
                case AtomicRMWInst::Xor: nv = binop (S, Instruction::Xor, x.w, old, v, x.I); break;
                case AtomicRMWInst::FAdd: nv = binop (S, Instruction::FAdd, x.w, old, v, x.I); break;
                default: throw Unsupported {"atomicrmw"};
            }
            writeMem (S, ad, x.w, nv);
            S.lock = sl;
            f.regs[x.dst] = old;
            ++f.pc; return;
        }
        case Instruction::AtomicCmpXchg: {
            unsigned w = x.ow[1];
            u64 ad = addrOf (S, get (f, x.ops[0]), "atomic address");
            uint32_t sl = S.lock; S.lock |= 0x80000000u;
            V old = readMem (S, ad, w);
            V eq = icmp (CmpInst::ICMP_EQ, w, old, get (f, x.ops[1]));
            bool b = branchOn (S, eq, "cmpxchg");
            if (b) writeMem (S, ad, w, get (f, x.ops[2]));
            S.lock = sl;
            f.regs[x.dst] = old; f.regs[x.dst + 1] = V (b);
            ++f.pc; return;
        }
        default:
            throw Unsupported {std::string ("instruction ") + x.I->getOpcodeName ()};
    }
}

#include "builtins.inc"

// ---------------------------------------------------------------- path end
static void pathDone (State &S)
{
    ++st.done;
    for (auto &t : S.reached) reachedTags.insert (t);
    S.ended = true;
    // witness
    ++witSeen;
    bool take = witnesses.size () < opt.maxWit || rnd () % witSeen < opt.maxWit;
    if (take)
    {
        if (!S.modelReal)
        {
            auto m = std::make_shared<Assign> ();
            if (S.model) m->val = S.model->val;
            if (localSearch (*m, S.pc, nullptr, 500, 0.5)) { S.model = m; S.modelReal = true; }
        }
        if (S.modelReal)
        {
            Assign m;
            if (S.model) m.val = S.model->val;
            {
                // inputs the path does not constrain take varied values, as far as the path allows
                std::set<u64> bound; std::unordered_set<E> seen;
                for (E c : S.pc) symsOf (c, bound, seen);
                Assign r; r.val = m.val;
                for (auto &i : S.inputs)
                    if (i.v.e && i.v.e->op == SYM && !bound.count (i.v.e->lo)) r.val[i.v.e->lo] = randVal (i.v.e->lo, rnd ());
                    else if (i.v.e && i.v.e->op == SYM && rnd () % 2)
                    {
                        u64 old = r.val[i.v.e->lo];
                        r.val[i.v.e->lo] = randVal (i.v.e->lo, old); r.memo.clear ();
                        bool ok = true;
                        for (E c : S.pc) if (!r.eval (c)) { ok = false; break; }
                        if (!ok) { r.val[i.v.e->lo] = old; r.memo.clear (); }
                    }
                r.memo.clear ();
                m.val = r.val;
            }
            std::string s = "{\"values\":" + valuesJson (S, m) + ",\"checks\":" + std::to_string (S.nchecks) + ",\"obs\":[";
            bool first = true;
            for (auto &o : S.obs)
            {
                u64 v = o.second.e ? (u64) m.eval (o.second.e) : o.second.c;
                char b[40]; snprintf (b, sizeof b, "\"0x%llx\"]", (unsigned long long) v);
                s += std::string (first ? "" : ",") + "[\"" + jesc (o.first) + "\"," + b;
                first = false;
            }
            s += "],\"undef\":" + std::string (S.undefUsed ? "true" : "false") + ",\"pc\":" + std::to_string (S.pc.size ()) + "}";
            if (witnesses.size () < opt.maxWit) witnesses.push_back (s);
            else witnesses[rnd () % witnesses.size ()] = s;
        }
    }
    throw Stop ();
}

static void runState (State *s)
{
    cur = s;
    ++st.paths;
    try
    {
        while (!s->ended)
        {
            Frame &f = s->st.back ();
            usedIns.insert (&f.f->code[f.pc]);
            ++s->steps; ++st.steps;
            u64 lim = s->stepLimit ? s->stepLimit : opt.maxSteps;
            if (s->steps > lim)
            {
                // believed only if the native replay does not end either
                pathError (*s, "nontermination", "no termination within " + std::to_string (lim) + " instructions");
                s->ended = true; break;
            }
            if ((st.steps & 0xfff) == 0 && now () - t0 > opt.timeLimit) { inconclusive.insert ("time limit"); s->ended = true; break; }
            if ((st.steps & 0xfff) == 0 && enough ()) { inconclusive.insert ("stopped after a violation"); s->ended = true; break; }
            step (*s);
        }
    }
    catch (Stop &) {}
    catch (Park &) { parking = false; parked.push_back (s); --st.paths; return; }
    catch (Unsupported &u) { incon (*s, "unsupported: " + u.msg); }
    delete s;
}

static std::string resultJson ()
{
    std::ostringstream o;
    o << "{\"stats\":{\"paths\":" << st.paths << ",\"done\":" << st.done << ",\"assumed\":" << st.assumed << ",\"infeasible\":" << st.infeasible
      << ",\"steps\":" << st.steps << ",\"forks\":" << st.forks << ",\"queries\":" << st.queries << ",\"sat\":" << st.sat << ",\"unsat\":" << st.unsat
      << ",\"unknown\":" << st.unknown << ",\"local\":" << st.absLocal << ",\"exact\":" << st.exactq << ",\"checks\":" << st.checks << ",\"checks_const\":" << st.checksConst
      << ",\"checks_solver\":" << st.checksSolver << ",\"solver_s\":" << st.solver << ",\"wall_s\":" << now () - t0 << "}";
    o << ",\"violations\":[";
    for (size_t i = 0; i < viols.size (); ++i)
        o << (i ? "," : "") << "{\"kind\":\"" << viols[i].kind << "\",\"msg\":\"" << jesc (viols[i].msg) << "\",\"loc\":\"" << jesc (viols[i].loc) << "\",\"real\":" << (viols[i].real ? "true" : "false") << ",\"values\":" << viols[i].values << "}";
    o << "],\"witnesses\":[";
    for (size_t i = 0; i < witnesses.size (); ++i) o << (i ? "," : "") << witnesses[i];
    auto lst = [&] (const char *n, const std::set<std::string> &s) {
        o << ",\"" << n << "\":["; bool f = true;
        for (auto &x : s) { o << (f ? "" : ",") << "\"" << jesc (x) << "\""; f = false; }
        o << "]";
    };
    o << "]";
    lst ("reached", reachedTags); lst ("inconclusive", inconclusive);
    for (auto *x : usedIns)
        if (const DebugLoc &d = x->I->getDebugLoc ())
        {
            const DILocation *L = d.get ();
            while (L)
            {
                auto *sp = L->getScope ()->getSubprogram ();
                if (sp)
                {
                    std::string fn = sp->getFilename ().str ();
                    if (fn.find ("/repo/") == 0 || fn.find ("/repo/") != std::string::npos) fnsUsed.insert (fn.substr (fn.find ("/repo/") + 6) + ":" + sp->getName ().str ());
                }
                L = L->getInlinedAt ();
            }
        }
    lst ("functions", fnsUsed);
    o << "}";
    return o.str ();
}

static bool dfs (size_t stopAt)
{
    // stopAt != 0: breadth-first until that many states are pending
    size_t head = 0;
    while (!work.empty () && head < work.size ())
    {
        if (viols.size () >= opt.maxViol || enough ()) break;
        if (st.paths >= opt.maxPaths) { inconclusive.insert ("path limit"); break; }
        if (now () - t0 > opt.timeLimit) { inconclusive.insert ("time limit"); break; }
        if (stopAt)
        {
            if (work.size () - head >= stopAt) break;
            State *s = work[head++];
            runState (s);
        }
        else { State *s = work.back (); work.pop_back (); runState (s); }
    }
    if (head) work.erase (work.begin (), work.begin () + head);
    return work.empty ();
}

int main (int argc, char **argv)
{
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto nx = [&] { return std::string (argv[++i]); };
        if (a == "--bc") opt.bc = nx ();
        else if (a == "--entry") opt.entry = nx ();
        else if (a == "--out") opt.out = nx ();
        else if (a == "--case") opt.cs = std::stoi (nx ());
        else if (a == "--tier") opt.tier = std::stoi (nx ());
        else if (a == "--jobs") opt.jobs = std::stoi (nx ());
        else if (a == "--time") opt.timeLimit = std::stod (nx ());
        else if (a == "--qto") opt.qto = std::stoi (nx ());
        else if (a == "--const-hash") opt.constHash = true;
        else if (a == "--exact-to") opt.exactTo = std::stoi (nx ());
        else if (a == "--steps") opt.maxSteps = std::stoull (nx ());
        else if (a == "--conc-cap") opt.concCap = std::stoi (nx ());
        else if (a == "--max-viol") opt.maxViol = std::stoi (nx ());
        else if (a == "--max-wit") opt.maxWit = std::stoi (nx ());
        else if (a == "--seed") { opt.seed = std::stoull (nx ()); }
        else if (a == "-v") opt.verbose = true;
        else if (a == "--trace") opt.trace = true;
        else { fprintf (stderr, "unknown option %s\n", a.c_str ()); return 2; }
    }
    {
        // deep recursion in expression walks
        rlimit rl; getrlimit (RLIMIT_STACK, &rl);
        if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1ull << 29) && !getenv ("VSX_STACK"))
        {
            rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (1ull << 30) : rl.rlim_max;
            if (setrlimit (RLIMIT_STACK, &rl) == 0) { setenv ("VSX_STACK", "1", 1); execv ("/proc/self/exe", argv); }
        }
    }
    rngs ^= opt.seed * 0x9e3779b97f4a7c15ull;
    t0 = now ();
    SMDiagnostic err;
    mod = parseIRFile (opt.bc, err, lctx);
    if (!mod) { err.print ("vsx", errs ()); return 2; }
    DL = &mod->getDataLayout ();
    sol.init ();
    State *s0 = new State;
    s0->model = std::make_shared<Assign> ();
    // functions
    for (auto &F : *mod)
    {
        Fn *f = new Fn; f->F = &F; f->name = F.getName ().str ();
        Obj *o = newObj (*s0, 1, 3);
        f->addr = o->base; fnOf[&F] = f; fnAt[o->base] = f; gaddr[&F] = o->base;
    }
    std::vector<std::pair<GlobalVariable *, Obj *>> gs;
    for (auto &G : mod->globals ())
    {
        u64 sz = G.getValueType ()->isSized () ? (u64) DL->getTypeAllocSize (G.getValueType ()) : 64;
        if (G.isDeclaration () && sz < 64) sz = 64;
        Obj *o = newObj (*s0, sz, G.isDeclaration () ? 4 : 0, G.getAlign () ? G.getAlign ()->value () : 16);
        gaddr[&G] = o->base;
        addrName[o->base] = G.getName ().str ();
        gs.push_back ({&G, o});
    }
    for (auto &p : gs)
        if (p.first->hasInitializer ())
        {
            try { initBytes (p.first->getInitializer (), p.second->c, 0); }
            catch (Unsupported &u) { fprintf (stderr, "vsx: global %s: %s\n", p.first->getName ().str ().c_str (), u.msg.c_str ()); }
            if (p.first->isConstant ()) p.second->ro = true;
        }
    if (auto *g = mod->getNamedGlobal ("_ZTVN10__cxxabiv120__si_class_type_infoE")) extVtSI = gaddr[g] + 16;
    if (auto *g = mod->getNamedGlobal ("_ZTVN10__cxxabiv121__vmi_class_type_infoE")) extVtVMI = gaddr[g] + 16;
    initBuiltins ();
    // a driver: global constructors in priority order, then the entry
    std::vector<std::pair<u64, Function *>> ctors;
    if (auto *gc = mod->getNamedGlobal ("llvm.global_ctors"))
        if (auto *ca = dyn_cast<ConstantArray> (gc->getInitializer ()))
            for (auto &o : ca->operands ())
            {
                auto *cs = cast<ConstantStruct> (o);
                if (auto *F = dyn_cast<Function> (cs->getOperand (1)->stripPointerCasts ())) ctors.push_back ({cast<ConstantInt> (cs->getOperand (0))->getZExtValue (), F});
            }
    std::stable_sort (ctors.begin (), ctors.end (), [] (auto &a, auto &b) { return a.first < b.first; });
    Function *EF = mod->getFunction (opt.entry);
    if (!EF || EF->isDeclaration ()) { fprintf (stderr, "vsx: no entry %s\n", opt.entry.c_str ()); return 2; }
    Function *main2 = Function::Create (FunctionType::get (Type::getVoidTy (lctx), false), GlobalValue::InternalLinkage, "__vsx_driver", mod.get ());
    {
        BasicBlock *bb = BasicBlock::Create (lctx, "e", main2);
        for (auto &c : ctors) CallInst::Create (c.second->getFunctionType (), c.second, {}, "", bb);
        CallInst::Create (EF->getFunctionType (), EF, {}, "", bb);
        ReturnInst::Create (lctx, bb);
        Fn *f = new Fn; f->F = main2; f->name = "__vsx_driver"; fnOf[main2] = f;
    }
    try { pushFrame (*s0, getFn (main2), {}); }
    catch (Unsupported &u) { fprintf (stderr, "vsx: %s\n", u.msg.c_str ()); return 2; }
    work.push_back (s0);
    phase1 = opt.jobs > 1;
    bool finished = dfs (opt.jobs > 1 ? opt.jobs * 8 : 0);
    phase1 = false;
    if (!parked.empty ()) { work.insert (work.begin (), parked.begin (), parked.end ()); finished = false; }
    if (opt.jobs > 1 && !finished && viols.size () < opt.maxViol)
    {
        // hand the pending states to child processes through a shared counter
        shared = (std::atomic<size_t> *) mmap (nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        for (int k = 0; k < 3; ++k) new (&shared[k]) std::atomic<size_t> (0);
        if (!viols.empty ()) shared[2] = (size_t) (now () * 1000);
        std::vector<State *> front; front.swap (work);
        std::vector<pid_t> kids;
        for (int j = 0; j < opt.jobs; ++j)
        {
            pid_t p = fork ();
            if (p == 0)
            {
                worker = j;
                st = Stats (); viols.clear (); witnesses.clear (); witSeen = 0; inconclusive.clear ();
                rngs ^= (j + 1) * 0x9e3779b97f4a7c15ull;
                // z3 state is per process after fork
                while (true)
                {
                    size_t k = shared[0].fetch_add (1);
                    if (k >= front.size () || shared[1].load () >= opt.maxViol || enough ()) break;
                    work.push_back (front[k]);
                    dfs (0);
                    if (viols.size () >= opt.maxViol) break;
                }
                saveResult ();
                _exit (0);
            }
            kids.push_back (p);
        }
        // a worker that sits in a long solver query is ended after the time is up
        bool bad = false, late = false;
        while (!kids.empty ())
        {
            for (size_t k = 0; k < kids.size ();)
            {
                int ws; pid_t r = waitpid (kids[k], &ws, WNOHANG);
                if (r == 0) { ++k; continue; }
                if (!WIFEXITED (ws) || WEXITSTATUS (ws)) bad = true;
                kids.erase (kids.begin () + k);
            }
            if (kids.empty ()) break;
            size_t at = shared[2].load ();
            if (!late && ((at && now () * 1000 > at + 25000) || now () - t0 > opt.timeLimit + 10))
            {
                late = true;
                for (pid_t p : kids) kill (p, SIGKILL);
                inconclusive.insert (at ? "stopped after a violation" : "time limit");
            }
            usleep (2000);
        }
        if (late) bad = false;
        if (bad) inconclusive.insert ("a worker process died");
    }
    std::ofstream (opt.out) << resultJson ();
    _exit (0);
}
