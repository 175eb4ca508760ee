#include "expr.h"
#include <cfenv>
#include <unordered_set>

int fmt_double (char *buf, size_t n, double v, int prec, int mode)
{
    return mode == 1 ? snprintf (buf, n, "%.*f", prec, v) : mode == 2 ? snprintf (buf, n, "%.*e", prec, v) : mode == 3 ? snprintf (buf, n, "%a", v) : snprintf (buf, n, "%.*g", prec, v);
}
const char *uf_names[] = {"sin", "cos", "tan", "pow", "exp", "log", "log2", "log10", "atan", "atan2", "asin", "acos", "hash", "fmod", "hypot", "cbrt", "round_digits"};
std::deque<SymInfo> g_syms;

static std::unordered_set<Expr *, ExprKeyHash, ExprKeyEq> table;
static std::deque<Expr> pool;
static uint32_t next_id = 1;

static E intern (Expr &k)
{
    auto it = table.find (&k);
    if (it != table.end ()) return *it;
    k.id = next_id++;
    pool.push_back (k);
    E e = &pool.back ();
    table.insert (e);
    return e;
}

E mk_const (unsigned w, u128 v)
{
    v &= mask128 (w);
    Expr k; memset (&k, 0, sizeof k);
    k.op = CONST; k.w = w; k.lo = (u64) v; k.hi = (u64) (v >> 64);
    return intern (k);
}

E mk_sym (unsigned w, const std::string &name, u64 *id_out)
{
    Expr k; memset (&k, 0, sizeof k);
    k.op = SYM; k.w = w; k.lo = g_syms.size ();
    g_syms.push_back ({name, w});
    if (id_out) *id_out = k.lo;
    return intern (k);
}

static E raw (Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0)
{
    Expr k; memset (&k, 0, sizeof k);
    k.op = op; k.w = w; k.aux = aux;
    k.a[0] = a; k.a[1] = b; k.a[2] = c;
    k.n = a ? (b ? (c ? 3 : 2) : 1) : 0;
    k.abs = op >= FADD;
    for (unsigned i = 0; i < k.n; ++i) k.abs |= k.a[i]->abs;
    return intern (k);
}

// an equality that is left for the solver even when both sides have the same normal form
E mk_eq_raw (E a, E b) { return raw (EQ, 1, a, b); }

static double uf_eval (uint32_t id, double a, double b)
{
    switch (id)
    {
        case UF_SIN: return sin (a);
        case UF_COS: return cos (a);
        case UF_TAN: return tan (a);
        case UF_POW: return pow (a, b);
        case UF_EXP: return exp (a);
        case UF_LOG: return log (a);
        case UF_LOG2: return log2 (a);
        case UF_LOG10: return log10 (a);
        case UF_ATAN: return atan (a);
        case UF_ATAN2: return atan2 (a, b);
        case UF_ASIN: return asin (a);
        case UF_ACOS: return acos (a);
        case UF_FMOD: return fmod (a, b);
        case UF_HYPOT: return hypot (a, b);
        case UF_CBRT: return cbrt (a);
    }
    return 0;
}

// conversions with x86-64 behaviour for out-of-range values
static u64 cvt_si (double d, unsigned w)
{
    if (w <= 32)
    {
        if (w == 32)
        {
            double t = trunc (d);
            if (!(t >= -2147483648.0 && t <= 2147483647.0)) return 0x80000000u;
            return (u64) (int64_t) t & 0xffffffffu;
        }
        // narrower: compilers convert through 32 bits
        double t = trunc (d);
        if (!(t >= -2147483648.0 && t <= 2147483647.0)) return 0;
        return (u64) (int64_t) t & mask64 (w);
    }
    double t = trunc (d);
    if (!(t >= -9223372036854775808.0 && t < 9223372036854775808.0)) return 0x8000000000000000ull;
    return (u64) (int64_t) t;
}
static u64 cvt_ui (double d, unsigned w)
{
    if (w < 64)
    {
        // via 64-bit signed conversion
        return cvt_si (d, 64) & mask64 (w);
    }
    // gcc/clang sequence
    if (d < 9223372036854775808.0 || d != d) return cvt_si (d, 64);
    return cvt_si (d - 9223372036854775808.0, 64) ^ 0x8000000000000000ull;
}

u128 eval_op (const Expr *e, const u128 *v, const unsigned *vw)
{
    const unsigned w = e->w;
    const u128 M = mask128 (w);
    auto sx = [] (u128 x, unsigned ww) -> __int128 {
        if (ww >= 128) return (__int128) x;
        u128 m = (u128) 1 << (ww - 1);
        return (__int128) ((x ^ m) - m);
    };
    switch (e->op)
    {
        case ADD: return (v[0] + v[1]) & M;
        case SUB: return (v[0] - v[1]) & M;
        case MUL: return (v[0] * v[1]) & M;
        case UDIV: return v[1] == 0 ? M : (v[0] / v[1]) & M;
        case UREM: return v[1] == 0 ? v[0] : (v[0] % v[1]) & M;
        case SDIV: { __int128 a = sx (v[0], w), b = sx (v[1], w); if (b == 0) return (a < 0 ? 1 : M) & M; if (b == -1) return (u128) -a & M; return (u128) (a / b) & M; }
        case SREM: { __int128 a = sx (v[0], w), b = sx (v[1], w); if (b == 0) return v[0]; if (b == -1) return 0; return (u128) (a % b) & M; }
        case AND: return v[0] & v[1];
        case OR: return v[0] | v[1];
        case XOR: return v[0] ^ v[1];
        case SHL: return v[1] >= w ? 0 : (v[0] << (unsigned) v[1]) & M;
        case LSHR: return v[1] >= w ? 0 : (v[0] >> (unsigned) v[1]);
        case ASHR: { __int128 a = sx (v[0], w); unsigned s = v[1] >= w ? w - 1 : (unsigned) v[1]; return (u128) (a >> s) & M; }
        case EQ: return v[0] == v[1];
        case ULT: return v[0] < v[1];
        case ULE: return v[0] <= v[1];
        case SLT: return sx (v[0], vw[0]) < sx (v[1], vw[0]);
        case SLE: return sx (v[0], vw[0]) <= sx (v[1], vw[0]);
        case ITE: return v[0] ? v[1] : v[2];
        case CONCAT: return ((v[0] << vw[1]) | v[1]) & M;
        case EXTRACT: return (v[0] >> e->aux) & M;
        case ZEXT: return v[0];
        case SEXT: return (u128) sx (v[0], vw[0]) & M;
        default: break;
    }
    const unsigned ow = vw[0];
    auto in = [&] (int i) -> double { return ow == 32 ? (double) bits_f ((u64) v[i]) : bits_d ((u64) v[i]); };
    auto out = [&] (double d) -> u128 { return w == 32 ? (u128) f_bits ((float) d) : (u128) d_bits (d); };
    auto outf = [&] (float d) -> u128 { return (u128) f_bits (d); };
    switch (e->op)
    {
        case FOEQ: return in (0) == in (1);
        case FOLT: return in (0) < in (1);
        case FOLE: return in (0) <= in (1);
        case FUNO: return in (0) != in (0) || in (1) != in (1);
        case FADD: return w == 32 ? outf (bits_f ((u64) v[0]) + bits_f ((u64) v[1])) : out (in (0) + in (1));
        case FSUB: return w == 32 ? outf (bits_f ((u64) v[0]) - bits_f ((u64) v[1])) : out (in (0) - in (1));
        case FMUL: return w == 32 ? outf (bits_f ((u64) v[0]) * bits_f ((u64) v[1])) : out (in (0) * in (1));
        case FDIV: return w == 32 ? outf (bits_f ((u64) v[0]) / bits_f ((u64) v[1])) : out (in (0) / in (1));
        case FREM: return out (fmod (in (0), in (1)));
        case FSQRT: return w == 32 ? outf (sqrtf (bits_f ((u64) v[0]))) : out (sqrt (in (0)));
        case FPTOSI: return cvt_si (in (0), w);
        case FPTOUI: return cvt_ui (in (0), w);
        case SITOFP: { int64_t s = sext64 ((u64) v[0], vw[0]); return w == 32 ? outf ((float) s) : d_bits ((double) s); }
        case UITOFP: return w == 32 ? outf ((float) (u64) v[0]) : d_bits ((double) (u64) v[0]);
        case FPEXT: return d_bits ((double) bits_f ((u64) v[0]));
        case FPTRUNC: return f_bits ((float) bits_d ((u64) v[0]));
        case FTRUNC: return out (trunc (in (0)));
        case FFLOOR: return out (floor (in (0)));
        case FCEIL: return out (ceil (in (0)));
        case FROUND: return out (round (in (0)));
        case FRINT: return out (nearbyint (in (0)));
        case UF:
            if (e->aux == UF_HASH)
            {
                u64 h = (u64) v[0] * 0x9ddfea08eb382d69ull; h ^= (u64) v[1]; h *= 0xff51afd7ed558ccdull; h ^= h >> 33;
                return h;
            }
            if (e->aux == UF_ROUND)
            {
                char buf[500];
                fmt_double (buf, sizeof buf, bits_d ((u64) v[0]), (int) (v[1] % 1000), (int) (v[1] / 1000));
                return d_bits (strtod (buf, nullptr));
            }
            return out (uf_eval (e->aux, in (0), e->n > 1 ? in (1) : 0));
        default: fprintf (stderr, "eval_op: bad op %d\n", e->op); abort ();
    }
}

u64 fold2 (Op op, unsigned w, unsigned ow, u64 a, u64 b)
{
    switch (op)
    {
        case ADD: return (a + b) & mask64 (w);
        case SUB: return (a - b) & mask64 (w);
        case MUL: return (a * b) & mask64 (w);
        case AND: return a & b;
        case OR: return a | b;
        case XOR: return a ^ b;
        case EQ: return a == b;
        case ULT: return a < b;
        case ULE: return a <= b;
        case SLT: return sext64 (a, ow) < sext64 (b, ow);
        case SLE: return sext64 (a, ow) <= sext64 (b, ow);
        case SHL: return b >= w ? 0 : (a << b) & mask64 (w);
        case LSHR: return b >= w ? 0 : a >> b;
        default: break;
    }
    Expr k; memset (&k, 0, sizeof k);
    k.op = op; k.w = w; k.n = 2;
    u128 v[3] = {a, b, 0}; unsigned vw[3] = {ow, ow, 0};
    return (u64) eval_op (&k, v, vw);
}

static inline bool isc (E e, u64 v) { return e->op == CONST && e->hi == 0 && e->lo == v; }
static inline bool allones (E e) { return e->op == CONST && cval (e) == mask128 (e->w); }

E mk_not (E a) { return mk (XOR, 1, a, mk_const (1, 1)); }

E mk_extract (E a, unsigned lo, unsigned w)
{
    if (lo == 0 && w == a->w) return a;
    if (a->op == CONST) return mk_const (w, cval (a) >> lo);
    if (a->op == EXTRACT) return mk_extract (a->a[0], lo + a->aux, w);
    if (a->op == CONCAT)
    {
        unsigned lw = a->a[1]->w;
        if (lo + w <= lw) return mk_extract (a->a[1], lo, w);
        if (lo >= lw) return mk_extract (a->a[0], lo - lw, w);
        return mk_concat (mk_extract (a->a[0], 0, lo + w - lw), mk_extract (a->a[1], lo, lw - lo));
    }
    if (a->op == ZEXT)
    {
        unsigned iw = a->a[0]->w;
        if (lo + w <= iw) return mk_extract (a->a[0], lo, w);
        if (lo >= iw) return mk_const (w, 0);
        return mk_zext (mk_extract (a->a[0], lo, iw - lo), w);
    }
    if (a->op == SEXT)
    {
        unsigned iw = a->a[0]->w;
        if (lo + w <= iw) return mk_extract (a->a[0], lo, w);
    }
    if (a->op == ITE && (is_const (a->a[1]) || is_const (a->a[2])))
        return mk_ite (a->a[0], mk_extract (a->a[1], lo, w), mk_extract (a->a[2], lo, w));
    if ((a->op == AND || a->op == OR || a->op == XOR) && (is_const (a->a[0]) || is_const (a->a[1])))
        return mk (a->op, w, mk_extract (a->a[0], lo, w), mk_extract (a->a[1], lo, w));
    if (lo == 0 && (a->op == ADD || a->op == SUB) && w < a->w)
        return mk (a->op, w, mk_extract (a->a[0], 0, w), mk_extract (a->a[1], 0, w));
    return raw (EXTRACT, w, a, nullptr, nullptr, lo);
}

E mk_concat (E hi, E lo)
{
    unsigned w = hi->w + lo->w;
    if (is_const (hi) && is_const (lo)) return mk_const (w, (cval (hi) << lo->w) | cval (lo));
    if (isc (hi, 0)) return mk_zext (lo, w);
    if (hi->op == EXTRACT)
    {
        if (lo->op == EXTRACT && hi->a[0] == lo->a[0] && hi->aux == lo->aux + lo->w) return mk_extract (hi->a[0], lo->aux, w);
        if (hi->a[0] == lo && hi->aux == lo->w) return mk_extract (lo, 0, w); // cannot happen for w > lo->w
        if (lo->op == CONCAT && lo->a[0]->op == EXTRACT && lo->a[0]->a[0] == hi->a[0] && hi->aux == lo->a[0]->aux + lo->a[0]->w)
            return mk_concat (mk_extract (hi->a[0], lo->a[0]->aux, hi->w + lo->a[0]->w), lo->a[1]);
    }
    if (hi->op == CONCAT)
        return mk_concat (hi->a[0], mk_concat (hi->a[1], lo));
    if (hi->op == ZEXT) // 0:x . lo
        return mk_zext (mk_concat (hi->a[0], lo), w);
    return raw (CONCAT, w, hi, lo);
}

E mk_zext (E a, unsigned w)
{
    if (a->w == w) return a;
    if (a->op == CONST) return mk_const (w, cval (a));
    if (a->op == ZEXT) return mk_zext (a->a[0], w);
    if (a->op == ITE && is_const (a->a[1]) && is_const (a->a[2])) return mk_ite (a->a[0], mk_zext (a->a[1], w), mk_zext (a->a[2], w));
    return raw (ZEXT, w, a);
}

E mk_sext (E a, unsigned w)
{
    if (a->w == w) return a;
    if (a->op == CONST)
    {
        u128 v = cval (a); u128 m = (u128) 1 << (a->w - 1);
        return mk_const (w, (v ^ m) - m);
    }
    if (a->op == ZEXT) return mk_zext (a->a[0], w);
    if (a->op == SEXT) return mk_sext (a->a[0], w);
    return raw (SEXT, w, a);
}

E mk_eq (E a, E b) { return mk (EQ, 1, a, b); }

static bool ite_bound (E c, E a, E b);
E mk_ite (E c, E a, E b)
{
    if (c->op == CONST) return c->lo ? a : b;
    if (a == b) return a;
    if (a->w == 1)
    {
        if (isc (a, 1) && isc (b, 0)) return c;
        if (isc (a, 0) && isc (b, 1)) return mk_not (c);
        if (isc (a, 1)) return mk (OR, 1, c, b);
        if (isc (a, 0)) return mk (AND, 1, mk_not (c), b);
        if (isc (b, 1)) return mk (OR, 1, mk_not (c), a);
        if (isc (b, 0)) return mk (AND, 1, c, a);
    }
    if (c->op == XOR && isc (c->a[1], 1)) return mk_ite (c->a[0], b, a);
    if (a->op == ITE && a->a[0] == c) a = a->a[1];
    if (b->op == ITE && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    if (c->op == SLT && a->w == 64 && (is_const (a) || is_const (b)) && ite_bound (c, a, b)) return a;
    return raw (ITE, a->w, c, a, b);
}

// ---- value ranges (signed) of integer expressions
struct Rng { int64_t lo, hi; };
static std::unordered_map<const Expr *, Rng> g_rng;
static Rng full (unsigned w) { return w >= 64 ? Rng {INT64_MIN, INT64_MAX} : Rng {-(int64_t) (1ll << (w - 1)), (int64_t) ((1ll << (w - 1)) - 1)}; }
static Rng range (E e)
{
    unsigned w = e->w;
    if (w > 64) return {INT64_MIN, INT64_MAX};
    if (e->op == CONST) { int64_t v = sext64 (e->lo, w); return {v, v}; }
    Rng f = full (w);
    switch (e->op) { case ZEXT: case SEXT: case ADD: case SUB: case MUL: case EXTRACT: case ITE: case CONCAT: case SDIV: case UDIV: case UREM: break; default: return f; }
    auto it = g_rng.find (e);
    if (it != g_rng.end ()) return it->second;
    __int128 lo = f.lo, hi = f.hi;
    E a = e->a[0];
    switch (e->op)
    {
        case ZEXT: { if (a->w > 63) break; Rng r = range (a); if (r.lo >= 0) { lo = r.lo; hi = r.hi; } else { lo = 0; hi = mask64 (a->w); } break; }
        case SEXT: { Rng r = range (a); lo = r.lo; hi = r.hi; break; }
        case ADD: { Rng x = range (a), y = range (e->a[1]); lo = (__int128) x.lo + y.lo; hi = (__int128) x.hi + y.hi; break; }
        case SUB: { Rng x = range (a), y = range (e->a[1]); lo = (__int128) x.lo - y.hi; hi = (__int128) x.hi - y.lo; break; }
        case MUL: {
            Rng x = range (a), y = range (e->a[1]);
            __int128 c[4] = {(__int128) x.lo * y.lo, (__int128) x.lo * y.hi, (__int128) x.hi * y.lo, (__int128) x.hi * y.hi};
            lo = hi = c[0]; for (auto v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
            if (a == e->a[1] && lo < 0) lo = 0;
            break; }
        case EXTRACT: {
            if (a->w > 64) break;
            Rng r = range (a);
            if (e->aux + w == a->w) { lo = r.lo >> e->aux; hi = r.hi >> e->aux; }
            else if (e->aux == 0 && r.lo >= f.lo && r.hi <= f.hi) { lo = r.lo; hi = r.hi; }
            break; }
        case ITE: { Rng x = range (e->a[1]), y = range (e->a[2]); lo = x.lo < y.lo ? x.lo : y.lo; hi = x.hi > y.hi ? x.hi : y.hi; break; }
        case CONCAT: {
            if (e->a[1]->w > 62) break;
            Rng r = range (a); lo = (__int128) r.lo << e->a[1]->w; hi = ((__int128) r.hi << e->a[1]->w) + (__int128) mask64 (e->a[1]->w); break; }
        case SDIV: { Rng x = range (a), y = range (e->a[1]); if (y.lo > 0) { lo = x.lo < 0 ? x.lo / y.lo : x.lo / y.hi; hi = x.hi < 0 ? x.hi / y.hi : x.hi / y.lo; } break; }
        case UDIV: { Rng x = range (a), y = range (e->a[1]); if (x.lo >= 0 && y.lo > 0) { lo = x.lo / y.hi; hi = x.hi / y.lo; } break; }
        case UREM: { Rng x = range (a), y = range (e->a[1]); if (x.lo >= 0 && y.lo > 0) { lo = 0; hi = y.hi - 1 < x.hi ? y.hi - 1 : x.hi; } break; }
        default: break;
    }
    if (lo < f.lo || hi > f.hi) { lo = f.lo; hi = f.hi; }
    return g_rng[e] = {(int64_t) lo, (int64_t) hi};
}
// ---- doubles that are provably n * 2^-k with |n| <= 2^50: arithmetic on them is exact, so it is
// rewritten to integer arithmetic. strong: zero is always +0.
struct Grid { E n; int k; Rng r; bool strong; };
static const int64_t GRID_MAX = 1ll << 50;
static bool grid_ok (__int128 lo, __int128 hi) { return lo >= -GRID_MAX && hi <= GRID_MAX; }
static unsigned bits_for (Rng r) { unsigned w = 2; while (w < 64 && (r.lo < -(1ll << (w - 1)) || r.hi > (1ll << (w - 1)) - 1)) ++w; return w; }
static E narrow (E e, Rng r) { unsigned w = bits_for (r); return w < e->w ? mk_sext (mk_extract (e, 0, w), e->w) : e; }
static bool grid_const (double d, Grid &g)
{
    if (!(d == d) || std::isinf (d)) return false;
    for (int k = 0; k <= 30; ++k)
    {
        double s = std::ldexp (d, k);
        if (std::fabs (s) > (double) (1ll << 40)) return false;
        if (s == std::floor (s)) { int64_t v = (int64_t) s; g = {mk_const (64, (u128) (__int128) v), k, {v, v}, !(v == 0 && std::signbit (d))}; return true; }
    }
    return false;
}
static void align (Grid &a, int k)
{
    if (a.k == k) return;
    int s = k - a.k;
    a.r.lo = a.r.lo * (1ll << s); a.r.hi = a.r.hi * (1ll << s);
    a.n = mk (SHL, 64, a.n, mk_const (64, s));
    a.k = k;
}
static bool can_align (const Grid &a, int k) { __int128 m = (__int128) 1 << (k - a.k); return k - a.k < 60 && grid_ok (a.r.lo * m, a.r.hi * m); }
static bool align2 (Grid &a, Grid &b)
{
    int k = a.k > b.k ? a.k : b.k;
    if (!can_align (a, k) || !can_align (b, k)) return false;
    align (a, k); align (b, k);
    return true;
}
static E fshift (const Grid &g) // floor
{
    return g.k ? mk (ASHR, 64, g.n, mk_const (64, g.k)) : g.n;
}
static Rng rshift (Rng r, int k) { return {r.lo >> k, r.hi >> k}; }
static bool divides (E e, E &q, Rng &r, bool up, bool &ok, bool tz = false);
static std::unordered_map<const Expr *, Grid> g_grid;
static bool grid (E e, Grid &g)
{
    if (e->w != 64) return false;
    switch (e->op)
    {
        case CONST: return grid_const (bits_d (e->lo), g);
        case SITOFP: {
            if (e->a[0]->w > 64) return false;
            Rng r = range (e->a[0]);
            if (!grid_ok (r.lo, r.hi)) return false;
            g = {mk_sext (e->a[0], 64), 0, r, true};
            return true; }
        case UITOFP: {
            if (e->a[0]->w > 64) return false;
            Rng r = range (e->a[0]);
            if (r.lo < 0) { if (e->a[0]->w > 48) return false; r = {0, (int64_t) mask64 (e->a[0]->w)}; }
            if (!grid_ok (r.lo, r.hi)) return false;
            g = {mk_zext (e->a[0], 64), 0, r, true};
            return true; }
        case FADD: case FSUB: case FMUL: case FDIV: case ITE: case FCEIL: case FFLOOR: case FTRUNC: case FROUND: case FRINT: case XOR: case AND: break;
        default: return false;
    }
    auto it = g_grid.find (e);
    if (it != g_grid.end ()) { g = it->second; return g.n != nullptr; }
    Grid a, b, r {nullptr, 0, {0, 0}, true};
    switch (e->op)
    {
        case FADD: case FSUB:
            if (!grid (e->a[0], a) || !grid (e->a[1], b) || !align2 (a, b)) break;
            {
                bool add = e->op == FADD;
                Rng q = add ? Rng {a.r.lo + b.r.lo, a.r.hi + b.r.hi} : Rng {a.r.lo - b.r.hi, a.r.hi - b.r.lo};
                if (!grid_ok (q.lo, q.hi)) break;
                r = {narrow (mk (e->op == FADD ? ADD : SUB, 64, a.n, b.n), q), a.k, q, (bool) (add ? a.strong | b.strong : a.strong)};
            }
            break;
        case FMUL: {
            if (!grid (e->a[0], a) || !grid (e->a[1], b)) break;
            bool sq = e->a[0] == e->a[1];
            __int128 c[4] = {(__int128) a.r.lo * b.r.lo, (__int128) a.r.lo * b.r.hi, (__int128) a.r.hi * b.r.lo, (__int128) a.r.hi * b.r.hi};
            __int128 lo = c[0], hi = c[0]; for (auto v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
            if (sq && lo < 0) lo = 0;
            if (!grid_ok (lo, hi) || a.k + b.k > 40) break;
            Rng q {(int64_t) lo, (int64_t) hi};
            bool strong = sq || (a.strong && b.strong && ((a.r.lo >= 0 && b.r.lo >= 0) || a.r.lo > 0 || b.r.lo > 0 || (a.r.hi < 0 && b.r.hi < 0)));
            unsigned w = bits_for (q), wa = bits_for (a.r), wb = bits_for (b.r);
            if (wa > w) w = wa;
            if (wb > w) w = wb;
            r = {mk_sext (mk (MUL, w, mk_extract (a.n, 0, w), mk_extract (b.n, 0, w)), 64), a.k + b.k, q, strong};
            break; }
        case FDIV: {
            if (!grid (e->a[0], a) || !grid (e->a[1], b) || !is_const (b.n)) break;
            int64_t v = b.r.lo;
            if (v <= 0 || (v & (v - 1))) break;
            int s = __builtin_ctzll (v) - b.k; // divide by 2^s
            if (s >= 0) { if (a.k + s > 40) break; r = a; r.k += s; }
            else
            {
                int t = -s;
                int d = t < a.k ? t : a.k;
                r = a; r.k -= d; t -= d;
                if (t && !can_align (r, r.k + t)) { r.n = nullptr; break; }
                if (t) { align (r, r.k + t); r.k -= t; }
            }
            break; }
        case ITE:
            if (!grid (e->a[1], a) || !grid (e->a[2], b) || !align2 (a, b)) break;
            r = {mk_ite (e->a[0], a.n, b.n), a.k, {a.r.lo < b.r.lo ? a.r.lo : b.r.lo, a.r.hi > b.r.hi ? a.r.hi : b.r.hi}, (bool) (a.strong & b.strong)};
            break;
        case FFLOOR:
            if (grid (e->a[0], a)) { r = {fshift (a), 0, rshift (a.r, a.k), a.strong}; break; }
            { bool ok; E q; Rng qr; if (divides (e->a[0], q, qr, false, ok)) r = {q, 0, qr, ok}; }
            break;
        case FCEIL:
            if (grid (e->a[0], a))
            {
                bool st = a.strong & (a.k == 0 || a.r.lo >= 0);
                int64_t add = (1ll << a.k) - 1;
                a.n = mk (ADD, 64, a.n, mk_const (64, (u128) add)); a.r = {a.r.lo + add, a.r.hi + add};
                r = {fshift (a), 0, rshift (a.r, a.k), st};
                break;
            }
            { bool ok; E q; Rng qr; if (divides (e->a[0], q, qr, true, ok)) r = {q, 0, qr, ok}; }
            break;
        case FTRUNC:
            if (!grid (e->a[0], a)) break;
            if (a.k == 0) { r = a; break; }
            if (a.r.lo >= 0) { r = {fshift (a), 0, rshift (a.r, a.k), a.strong}; break; }
            {
                int64_t add = (1ll << a.k) - 1;
                E t = mk_ite (mk (SLT, 1, a.n, mk_const (64, 0)), mk (ADD, 64, a.n, mk_const (64, (u128) add)), a.n);
                r = {mk (ASHR, 64, t, mk_const (64, a.k)), 0, {-((-a.r.lo) >> a.k), a.r.hi < 0 ? 0 : a.r.hi >> a.k}, false};
            }
            break;
        case FROUND: // half away from zero
            if (!grid (e->a[0], a)) break;
            if (a.k == 0) { r = a; break; }
            {
                int64_t h = 1ll << (a.k - 1);
                // n >= 0: (n + h) >> k ; n < 0: -((-n + h) >> k) = (n - h + 2^k - 1) >> k
                E pos = mk (ASHR, 64, mk (ADD, 64, a.n, mk_const (64, (u128) h)), mk_const (64, a.k));
                E neg = mk (ASHR, 64, mk (ADD, 64, a.n, mk_const (64, (u128) (__int128) (2 * h - 1 - h))), mk_const (64, a.k));
                Rng q {(a.r.lo - h) >> a.k, (a.r.hi + h) >> a.k};
                r = {a.r.lo >= 0 ? pos : mk_ite (mk (SLT, 1, a.n, mk_const (64, 0)), neg, pos), 0, q, (bool) (a.strong & (a.r.lo >= 0))};
            }
            break;
        case FRINT:
            if (grid (e->a[0], a) && a.k == 0) r = a;
            break;
        case XOR: // negation
            if (is_const (e->a[1]) && e->a[1]->lo == 1ull << 63 && grid (e->a[0], a))
                r = {mk (SUB, 64, mk_const (64, 0), a.n), a.k, {-a.r.hi, -a.r.lo}, false};
            break;
        default: break;
    }
    g_grid[e] = r;
    g = r;
    return r.n != nullptr;
}
// floor or ceiling of a quotient of two grid values, divisor positive; correctly rounded division
// cannot cross an integer for operands this small
static bool divides (E e, E &q, Rng &qr, bool up, bool &strong, bool tz)
{
    Grid a, b;
    if (e->op != FDIV || !grid (e->a[0], a) || !grid (e->a[1], b) || b.r.lo <= 0 || !align2 (a, b)) return false;
    if (a.r.lo < -(1ll << 40) || a.r.hi > 1ll << 40 || b.r.hi > 1ll << 40) return false;
    strong = a.strong & (a.r.lo >= 0 || !up);
    E n = a.n; Rng r = a.r;
    if (up) { n = mk (ADD, 64, n, mk (SUB, 64, b.n, mk_const (64, 1))); r = {r.lo, r.hi + b.r.hi - 1}; }
    Rng m {r.lo - b.r.hi, r.hi > b.r.hi ? r.hi : b.r.hi};
    unsigned w = bits_for (m);
    E N = mk_extract (n, 0, w), D = mk_extract (b.n, 0, w), Z = mk_const (w, 0);
    E t;
    if (r.lo >= 0) t = mk (UDIV, w, N, D);
    else
    {
        // floor (N / D) for negative N: -((-N + D - 1) / D)
        E neg = mk (SUB, w, Z, mk (UDIV, w, tz ? mk (SUB, w, Z, N) : mk (ADD, w, mk (SUB, w, Z, N), mk (SUB, w, D, mk_const (w, 1))), D));
        t = mk_ite (mk (SLT, 1, N, Z), neg, mk (UDIV, w, N, D));
    }
    q = mk_sext (t, 64);
    qr = {r.lo < 0 ? -((-r.lo + b.r.lo - 1) / b.r.lo) : r.lo / b.r.hi, r.hi < 0 ? 0 : r.hi / b.r.lo};
    return true;
}
// division of values that are known to be small and not negative
static E narrow_div (Op op, unsigned w, E a, E b)
{
    if (w > 64) return nullptr;
    Rng x = range (a), y = range (b);
    if (x.lo < 0 || y.lo <= 0) return nullptr;
    Rng m {0, x.hi > y.hi ? x.hi : y.hi};
    if (is_const (b) && y.lo > x.hi) return op == UDIV ? mk_const (w, 0) : a;
    unsigned n = bits_for (m) - 1; // the sign bit is not needed
    if (n < 2 || n + 4 > w) return nullptr;
    return mk_zext (raw (op, n, mk_extract (a, 0, n), mk_extract (b, 0, n)), w);
}
// c is p < q where one of them is constant and the range of the other one touches it only when they are
// equal; then !c means that both are equal: true if a and b are equal in that case
static bool ite_bound (E c, E a, E b)
{
    E p = c->a[0], q = c->a[1];
    if (p->w != 64) return false;
    E v; int64_t k;
    if (is_const (q)) { v = p; k = (int64_t) q->lo; if (range (p).hi > k) return false; }
    else if (is_const (p)) { v = q; k = (int64_t) p->lo; if (range (q).lo < k) return false; }
    else return false;
    E e = is_const (a) ? b : a, f = is_const (a) ? a : b;
    if (e == v) return (int64_t) f->lo == k;
    Grid g;
    if (!(e->op == SITOFP || e->op == FDIV || e->op == UITOFP) || !grid (e, g) || !g.strong || g.n != v) return false;
    return f->lo == d_bits (std::ldexp ((double) k, -g.k));
}
static E mk_grid (const Grid &g)
{
    if (is_const (g.n)) return mk_const (64, d_bits (std::ldexp ((double) (int64_t) g.n->lo, -g.k)));
    E f = raw (SITOFP, 64, g.n);
    return g.k ? raw (FDIV, 64, f, mk_const (64, d_bits (std::ldexp (1.0, g.k)))) : f;
}
// c cmp n: turn a double bound into an integer one
static E grid_cmp (Op op, E a, E b)
{
    Grid x, y;
    // square roots: compare squares
    if (a->op == FSQRT || b->op == FSQRT)
    {
        bool sa = a->op == FSQRT, sb = b->op == FSQRT;
        if (!grid (sa ? a->a[0] : a, x) || !grid (sb ? b->a[0] : b, y)) return nullptr;
        if ((sa && x.r.lo < 0) || (sb && y.r.lo < 0)) return nullptr;
        if (sa && sb) return nullptr;
        Grid &s = sa ? x : y, &r = sa ? y : x;
        int K = r.k > (s.k + 1) / 2 ? r.k : (s.k + 1) / 2;
        if (!can_align (r, K) || !can_align (s, 2 * K)) return nullptr;
        align (r, K); align (s, 2 * K);
        if (r.r.lo < -(1ll << 24) || r.r.hi > 1ll << 24 || s.r.hi > 1ll << 48) return nullptr;
        unsigned w = 50;
        E R = mk_extract (r.n, 0, w), S = mk_extract (s.n, 0, w), Z = mk_const (w, 0);
        E sq = mk (MUL, w, R, R), neg = mk (SLT, 1, R, Z);
        if (r.r.lo >= 0) neg = mk_const (1, 0);
        if (op == FOEQ) return mk (AND, 1, mk_not (neg), mk_eq (S, sq));
        if (sa) return mk (AND, 1, mk_not (neg), mk (op == FOLT ? SLT : SLE, 1, S, sq));
        return mk (OR, 1, neg, mk (op == FOLT ? SLT : SLE, 1, sq, S));
    }
    bool ga = grid (a, x), gb = grid (b, y);
    if (ga && gb)
    {
        if (!align2 (x, y)) return nullptr;
        if (x.r.hi < y.r.lo) return mk_const (1, op != FOEQ);
        if (x.r.lo > y.r.hi) return mk_const (1, 0);
        if (op == FOLE && x.r.hi == y.r.lo) return mk_const (1, 1);
        if (op == FOLT && x.r.lo == y.r.hi) return mk_const (1, 0);
        return op == FOEQ ? mk_eq (x.n, y.n) : mk (op == FOLT ? SLT : SLE, 1, x.n, y.n);
    }
    if (ga && is_const (b))
    {
        double c = bits_d (b->lo);
        if (c != c) return mk_const (1, 0);
        c = std::ldexp (c, x.k);
        if (c > (double) GRID_MAX) return mk_const (1, op != FOEQ);
        if (c < -(double) GRID_MAX) return mk_const (1, 0);
        if (op == FOEQ) return mk_const (1, 0); // not a grid value
        if (c == std::floor (c)) return nullptr;
        return mk (SLE, 1, x.n, mk_const (64, (u128) (__int128) (int64_t) std::floor (c)));
    }
    if (gb && is_const (a))
    {
        double c = bits_d (a->lo);
        if (c != c) return mk_const (1, 0);
        c = std::ldexp (c, y.k);
        if (c > (double) GRID_MAX) return mk_const (1, 0);
        if (c < -(double) GRID_MAX) return mk_const (1, op != FOEQ);
        if (op == FOEQ) return mk_const (1, 0);
        if (c == std::floor (c)) return nullptr;
        return mk (SLE, 1, mk_const (64, (u128) (__int128) (int64_t) std::ceil (c)), y.n);
    }
    return nullptr;
}

E mk (Op op, unsigned w, E a, E b, E c, uint32_t aux)
{
    switch (op)
    {
        case EXTRACT: return mk_extract (a, aux, w);
        case CONCAT: return mk_concat (a, b);
        case ZEXT: return mk_zext (a, w);
        case SEXT: return mk_sext (a, w);
        case ITE: return mk_ite (a, b, c);
        default: break;
    }
    // constant folding
    bool allc = is_const (a) && (!b || is_const (b)) && (!c || is_const (c));
    if (allc)
    {
        Expr k; memset (&k, 0, sizeof k);
        k.op = op; k.w = w; k.aux = aux; k.n = b ? (c ? 3 : 2) : 1;
        u128 v[3] = {cval (a), b ? cval (b) : 0, c ? cval (c) : 0};
        unsigned vw[3] = {a->w, b ? (unsigned) b->w : 0, c ? (unsigned) c->w : 0};
        return mk_const (w, eval_op (&k, v, vw));
    }
    // canonical order for commutative operators: constant last, else by id
    switch (op)
    {
        case ADD: case MUL: case AND: case OR: case XOR: case EQ: case FADD: case FMUL: case FOEQ: case FUNO:
            if (is_const (a) || (!is_const (b) && a->id > b->id)) std::swap (a, b);
            break;
        default: break;
    }
    switch (op)
    {
        case ADD:
            if (isc (b, 0)) return a;
            if (is_const (b) && a->op == ADD && is_const (a->a[1])) return mk (ADD, w, a->a[0], mk_const (w, cval (a->a[1]) + cval (b)));
            if (a->op == SUB && a->a[1] == b) return a->a[0];
            if (b->op == SUB && b->a[1] == a) return b->a[0];
            break;
        case SUB:
            if (a == b) return mk_const (w, 0);
            if (is_const (b)) return mk (ADD, w, a, mk_const (w, (u128) 0 - cval (b)));
            if (a->op == ADD && a->a[0] == b) return a->a[1];
            if (a->op == ADD && a->a[1] == b) return a->a[0];
            break;
        case MUL:
            if (isc (b, 0)) return b;
            if (isc (b, 1)) return a;
            if (is_const (b) && w <= 64 && (b->lo & (b->lo - 1)) == 0) return mk (SHL, w, a, mk_const (w, __builtin_ctzll (b->lo)));
            if (w > 16 && w <= 64)
            {
                // values known to be small: multiply in few bits
                Rng x = range (a), y = range (b);
                __int128 c[4] = {(__int128) x.lo * y.lo, (__int128) x.lo * y.hi, (__int128) x.hi * y.lo, (__int128) x.hi * y.hi};
                __int128 lo = c[0], hi = c[0]; for (auto v : c) { if (v < lo) lo = v; if (v > hi) hi = v; }
                if (lo >= -(1ll << 40) && hi <= 1ll << 40)
                {
                    unsigned n = bits_for ({(int64_t) lo, (int64_t) hi}), na = bits_for (x), nb = bits_for (y);
                    if (na > n) n = na;
                    if (nb > n) n = nb;
                    if (n + 4 <= w) return mk_sext (raw (MUL, n, mk_extract (a, 0, n), mk_extract (b, 0, n)), w);
                }
            }
            break;
        case UDIV:
            if (isc (b, 1)) return a;
            if (is_const (b) && w <= 64 && b->lo && (b->lo & (b->lo - 1)) == 0) return mk (LSHR, w, a, mk_const (w, __builtin_ctzll (b->lo)));
            { E n = narrow_div (op, w, a, b); if (n) return n; }
            break;
        case UREM:
            if (isc (b, 1)) return mk_const (w, 0);
            if (is_const (b) && w <= 64 && b->lo && (b->lo & (b->lo - 1)) == 0) return mk (AND, w, a, mk_const (w, b->lo - 1));
            { E n = narrow_div (op, w, a, b); if (n) return n; }
            break;
        case SDIV: case SREM:
            if (is_const (b) && isc (b, 1)) return op == SDIV ? a : mk_const (w, 0);
            { E n = narrow_div (op == SDIV ? UDIV : UREM, w, a, b); if (n) return n; }
            break;
        case AND:
            if (isc (b, 0)) return b;
            if (allones (b)) return a;
            if (a == b) return a;
            if (w == 1 && ((a->op == XOR && isc (a->a[1], 1) && a->a[0] == b) || (b->op == XOR && isc (b->a[1], 1) && b->a[0] == a))) return mk_const (1, 0);
            if (is_const (b) && a->op == AND && is_const (a->a[1])) return mk (AND, w, a->a[0], mk_const (w, cval (b) & cval (a->a[1])));
            if (is_const (b) && w <= 64 && ((b->lo + 1) & b->lo) == 0 && b->lo) // low mask
                return mk_zext (mk_extract (a, 0, 64 - __builtin_clzll (b->lo)), w);
            break;
        case OR:
            if (isc (b, 0)) return a;
            if (allones (b)) return b;
            if (a == b) return a;
            if (w == 1 && ((a->op == XOR && isc (a->a[1], 1) && a->a[0] == b) || (b->op == XOR && isc (b->a[1], 1) && b->a[0] == a))) return mk_const (1, 1);
            // (hi.0) | zext(lo) -> concat
            if (w > 1)
                for (int sw = 0; sw < 2; ++sw)
                {
                    E x = sw ? b : a, y = sw ? a : b;
                    // x = concat(h, 0_k) or zext of it
                    unsigned zx = 0; E h = x;
                    if (h->op == ZEXT) { zx = h->w - h->a[0]->w; h = h->a[0]; }
                    if (h->op == CONCAT && isc (h->a[1], 0) && y->op == ZEXT && y->a[0]->w <= h->a[1]->w)
                        return mk_zext (mk_concat (h->a[0], mk_zext (y->a[0], h->a[1]->w)), w);
                    (void) zx;
                }
            break;
        case XOR:
            if (isc (b, 0)) return a;
            if (a == b) return mk_const (w, 0);
            if (is_const (b) && a->op == XOR && is_const (a->a[1])) return mk (XOR, w, a->a[0], mk_const (w, cval (b) ^ cval (a->a[1])));
            break;
        case SHL:
            if (isc (b, 0)) return a;
            if (is_const (b))
            {
                if (cval (b) >= w) return mk_const (w, 0);
                unsigned s = (unsigned) b->lo;
                return mk_concat (mk_extract (a, 0, w - s), mk_const (s, 0));
            }
            break;
        case LSHR:
            if (isc (b, 0)) return a;
            if (is_const (b))
            {
                if (cval (b) >= w) return mk_const (w, 0);
                unsigned s = (unsigned) b->lo;
                return mk_zext (mk_extract (a, s, w - s), w);
            }
            break;
        case ASHR:
            if (isc (b, 0)) return a;
            if (is_const (b) && cval (b) < w) { unsigned s = (unsigned) b->lo; return mk_sext (mk_extract (a, s, w - s), w); }
            break;
        case EQ:
            if (a == b) return mk_const (1, 1);
            if (a->w == 1)
            {
                if (isc (b, 1)) return a;
                if (isc (b, 0)) return mk_not (a);
            }
            if (is_const (b))
            {
                if (a->op == ADD && is_const (a->a[1])) return mk_eq (a->a[0], mk_const (a->w, cval (b) - cval (a->a[1])));
                if (a->op == XOR && is_const (a->a[1])) return mk_eq (a->a[0], mk_const (a->w, cval (b) ^ cval (a->a[1])));
                if (a->op == ZEXT)
                {
                    if (cval (b) > mask128 (a->a[0]->w)) return mk_const (1, 0);
                    return mk_eq (a->a[0], mk_const (a->a[0]->w, cval (b)));
                }
                if (a->op == ITE && is_const (a->a[1]) && is_const (a->a[2]))
                {
                    bool x = a->a[1] == b, y = a->a[2] == b;
                    if (x && y) return mk_const (1, 1);
                    if (x) return a->a[0];
                    if (y) return mk_not (a->a[0]);
                    return mk_const (1, 0);
                }
                if (a->op == CONCAT)
                {
                    unsigned lw = a->a[1]->w;
                    return mk (AND, 1, mk_eq (a->a[0], mk_const (a->a[0]->w, cval (b) >> lw)), mk_eq (a->a[1], mk_const (lw, cval (b))));
                }
            }
            if (a->op == ZEXT && b->op == ZEXT && a->a[0]->w == b->a[0]->w) return mk_eq (a->a[0], b->a[0]);
            if (a->op == CONCAT && b->op == CONCAT && a->a[1]->w == b->a[1]->w)
                return mk (AND, 1, mk_eq (a->a[0], b->a[0]), mk_eq (a->a[1], b->a[1]));
            break;
        case ULT:
            if (a == b) return mk_const (1, 0);
            if (isc (b, 0)) return mk_const (1, 0);
            if (isc (b, 1)) return mk_eq (a, mk_const (a->w, 0));
            if (isc (a, 0)) return mk_not (mk_eq (b, a));
            if (a->op == ZEXT && is_const (b))
            {
                if (cval (b) > mask128 (a->a[0]->w)) return mk_const (1, 1);
                return mk (ULT, 1, a->a[0], mk_const (a->a[0]->w, cval (b)));
            }
            if (b->op == ZEXT && is_const (a))
            {
                if (cval (a) >= mask128 (b->a[0]->w)) return mk_const (1, 0);
                return mk (ULT, 1, mk_const (b->a[0]->w, cval (a)), b->a[0]);
            }
            break;
        case ULE:
            return mk_not (mk (ULT, 1, b, a));
        case SLT:
            if (a == b) return mk_const (1, 0);
            if (a->op == ZEXT && is_const (b))
            {
                if (cval (b) >> (b->w - 1)) return mk_const (1, 0);
                return mk (ULT, 1, a, b);
            }
            if (b->op == ZEXT && is_const (a))
            {
                if (cval (a) >> (a->w - 1)) return mk_const (1, 1);
                return mk (ULT, 1, a, b);
            }
            if (a->w <= 64)
            {
                Rng x = range (a), y = range (b);
                if (x.hi < y.lo) return mk_const (1, 1);
                if (x.lo >= y.hi) return mk_const (1, 0);
            }
            break;
        case SLE:
            return mk_not (mk (SLT, 1, b, a));
        case FUNO: {
            Grid x, y;
            if (a->w == 64 && grid (a, x) && grid (b, y)) return mk_const (1, 0);
            break; }
        case FOLT: case FOLE: case FOEQ:
            if (a->w == 64) { E r = grid_cmp (op, a, b); if (r) return r; }
            break;
        case FADD: case FSUB: case FMUL: case FDIV: case FFLOOR: case FCEIL: case FTRUNC: case FROUND: case FRINT:
            if (w == 64)
            {
                E r = raw (op, w, a, b, c, aux);
                Grid g;
                if (grid (r, g) && g.strong) return mk_grid (g);
                return r;
            }
            break;
        case FPTOSI: case FPTOUI:
            if (a->w == 64)
            {
                Grid g; E q; Rng r; bool st;
                if (grid (a, g))
                {
                    if (g.k == 0 || g.r.lo >= 0) { q = fshift (g); r = rshift (g.r, g.k); }
                    else
                    {
                        E t = mk_ite (mk (SLT, 1, g.n, mk_const (64, 0)), mk (ADD, 64, g.n, mk_const (64, (u128) ((1ll << g.k) - 1))), g.n);
                        q = mk (ASHR, 64, t, mk_const (64, g.k)); r = {-((-g.r.lo) >> g.k), g.r.hi < 0 ? 0 : g.r.hi >> g.k};
                    }
                }
                else if (a->op == FDIV && divides (a, q, r, false, st, true)) {}
                else if (a->op == FADD && is_const (a->a[1]) && grid_const (bits_d (a->a[1]->lo), g) && g.k == 0 && a->a[0]->op == FDIV)
                {
                    // trunc (x / c + m): floor for a sum that is not negative, ceiling otherwise
                    E q2; Rng r2;
                    if (!divides (a->a[0], q, r, false, st)) break;
                    if (r.lo < 0)
                    {
                        if (!divides (a->a[0], q2, r2, true, st)) break;
                        q = mk_ite (mk (SLT, 1, mk (ADD, 64, q, g.n), mk_const (64, 0)), q2, q);
                        if (r2.hi > r.hi) r.hi = r2.hi;
                    }
                    q = mk (ADD, 64, q, g.n);
                    r = {r.lo + g.r.lo, r.hi + g.r.lo};
                }
                else break;
                Rng f = full (w);
                // a negative operand of an unsigned conversion has no defined value: as the hardware does
                if (op == FPTOUI) { f.lo = INT64_MIN; f.hi = w >= 63 ? INT64_MAX : (int64_t) mask64 (w); }
                if (r.lo < f.lo || r.hi > f.hi) break;
                return mk_extract (q, 0, w);
            }
            break;
        case FPTRUNC:
            if (a->op == FPEXT) return a->a[0];
            break;
        default: break;
    }
    return raw (op, w, a, b, c, aux);
}

u128 Assign::eval (const Expr *e) const
{
    if (e->op == CONST) return cval (const_cast<E> (e));
    if (e->op == SYM)
    {
        auto it = val.find (e->lo);
        return it == val.end () ? 0 : (it->second & mask64 (e->w));
    }
    auto it = memo.find (e);
    if (it != memo.end ()) return it->second;
    u128 r;
    if (e->op == ITE)
        r = eval (e->a[0]) ? eval (e->a[1]) : eval (e->a[2]);
    else
    {
        u128 v[3] = {0, 0, 0}; unsigned vw[3] = {0, 0, 0};
        for (unsigned i = 0; i < e->n; ++i) { v[i] = eval (e->a[i]); vw[i] = e->a[i]->w; }
        r = eval_op (e, v, vw);
    }
    memo[e] = r;
    return r;
}

static const char *opn[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "<<", ">>u", ">>s", "=", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "f=", "f<", "f<=", "funo", "f+", "f-", "f*", "f/", "frem", "fsqrt", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ftrunc", "ffloor", "fceil", "fround", "frint", "uf"};

std::string expr_str (E e, int depth)
{
    char b[64];
    if (e->op == CONST) { snprintf (b, sizeof b, "0x%llx:%d", (unsigned long long) e->lo, e->w); return b; }
    if (e->op == SYM) return g_syms[e->lo].name;
    if (depth == 0) return "...";
    std::string s = "(";
    s += opn[e->op];
    if (e->op == EXTRACT) { snprintf (b, sizeof b, "[%d+%d]", e->aux, e->w); s += b; }
    if (e->op == UF) { s += ":"; s += uf_names[e->aux]; }
    for (unsigned i = 0; i < e->n; ++i) s += " " + expr_str (e->a[i], depth - 1);
    return s + ")";
}

// ------------------------------------------------------------------ Z3 lowering

// The context counts references; every node the lowering makes is kept for the life of the process.
static void kept (Z3_context c, Z3_ast a) { Z3_inc_ref (c, a); }
static void kept (Z3_context c, Z3_sort s) { Z3_inc_ref (c, Z3_sort_to_ast (c, s)); }
static void kept (Z3_context c, Z3_func_decl d) { Z3_inc_ref (c, Z3_func_decl_to_ast (c, d)); }
static void kept (Z3_context, Z3_symbol) {}
template <class R, class... P, class... A> static R K (R (*f) (Z3_context, P...), Z3_context c, A... a)
{
    R r = f (c, a...);
    kept (c, r);
    return r;
}

static Z3_ast zbv (Z3_context c, unsigned w, u128 v)
{
    if (w <= 64) return K (Z3_mk_unsigned_int64, c, (u64) v, K (Z3_mk_bv_sort, c, w));
    Z3_ast hi = K (Z3_mk_unsigned_int64, c, (u64) (v >> 64), K (Z3_mk_bv_sort, c, w - 64));
    Z3_ast lo = K (Z3_mk_unsigned_int64, c, (u64) v, K (Z3_mk_bv_sort, c, 64));
    return K (Z3_mk_concat, c, hi, lo);
}

Z3_ast Lowering::uf (const std::string &n, unsigned w, const std::vector<Z3_ast> &args)
{
    std::string key = n;
    std::vector<Z3_sort> dom;
    for (auto a : args)
    {
        Z3_sort s = Z3_get_sort (ctx, a);
        dom.push_back (s);
        key += "_" + std::to_string (Z3_get_bv_sort_size (ctx, s));
    }
    key += "_" + std::to_string (w);
    auto it = ufs.find (key);
    Z3_func_decl d;
    if (it == ufs.end ())
    {
        d = K (Z3_mk_func_decl, ctx, K (Z3_mk_string_symbol, ctx, key.c_str ()), dom.size (), dom.data (), K (Z3_mk_bv_sort, ctx, w));
        Z3_inc_ref (ctx, Z3_func_decl_to_ast (ctx, d));
        ufs[key] = d;
    }
    else d = it->second;
    return K (Z3_mk_app, ctx, d, args.size (), args.data ());
}

Z3_ast Lowering::isnan (Z3_ast v, unsigned w)
{
    u64 m = w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull;
    u64 inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
    return K (Z3_mk_bvugt, ctx, K (Z3_mk_bvand, ctx, v, zbv (ctx, w, m)), zbv (ctx, w, inf));
}

Z3_ast Lowering::f_lt (Z3_ast a, Z3_ast b, unsigned w, bool orEq)
{
    // ordered comparison on sign-magnitude bit patterns
    u64 m = w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull;
    Z3_ast nn[2] = {K (Z3_mk_not, ctx, isnan (a, w)), K (Z3_mk_not, ctx, isnan (b, w))};
    Z3_ast ma = K (Z3_mk_bvand, ctx, a, zbv (ctx, w, m)), mb = K (Z3_mk_bvand, ctx, b, zbv (ctx, w, m));
    Z3_ast z = zbv (ctx, w, 0);
    Z3_ast bz[2] = {K (Z3_mk_eq, ctx, ma, z), K (Z3_mk_eq, ctx, mb, z)};
    Z3_ast bothzero = K (Z3_mk_and, ctx, 2, bz);
    Z3_ast sa = K (Z3_mk_bvslt, ctx, a, z), sb = K (Z3_mk_bvslt, ctx, b, z);
    Z3_ast cmp = orEq ? K (Z3_mk_bvule, ctx, ma, mb) : K (Z3_mk_bvult, ctx, ma, mb);
    Z3_ast cmpn = orEq ? K (Z3_mk_bvule, ctx, mb, ma) : K (Z3_mk_bvult, ctx, mb, ma);
    // sa,!sb -> true ; !sa,sb -> false ; both pos -> cmp ; both neg -> cmpn
    Z3_ast r = K (Z3_mk_ite, ctx, sa, K (Z3_mk_ite, ctx, sb, cmpn, K (Z3_mk_true, ctx)), K (Z3_mk_ite, ctx, sb, K (Z3_mk_false, ctx), cmp));
    r = K (Z3_mk_ite, ctx, bothzero, orEq ? K (Z3_mk_true, ctx) : K (Z3_mk_false, ctx), r);
    Z3_ast all[3] = {nn[0], nn[1], r};
    return K (Z3_mk_and, ctx, 3, all);
}

Z3_ast Lowering::bv (E e)
{
    Z3_ast a = lower (e);
    if (e->w != 1) return a;
    return K (Z3_mk_ite, ctx, a, zbv (ctx, 1, 1), zbv (ctx, 1, 0));
}

Z3_ast Lowering::lower (E e)
{
    auto it = memo.find (e);
    if (it != memo.end ()) return it->second;
    // iterative post-order to avoid deep recursion
    std::vector<std::pair<E, unsigned>> st;
    st.push_back ({e, 0});
    while (!st.empty ())
    {
        auto &[x, i] = st.back ();
        if (memo.count (x)) { st.pop_back (); continue; }
        if (i < x->n) { E ch = x->a[i]; ++i; if (!memo.count (ch)) st.push_back ({ch, 0}); continue; }
        E y = x;
        st.pop_back ();
        Z3_ast r = low1 (y);
        Z3_inc_ref (ctx, r);
        memo[y] = r;
    }
    return memo[e];
}

Z3_ast Lowering::low1 (E e)
{
    Z3_context c = ctx;
    const unsigned w = e->w;
    auto L = [&] (int i) { return lower (e->a[i]); };
    auto B = [&] (int i) { return bv (e->a[i]); };
    if (e->op == CONST) return w == 1 ? (e->lo ? K (Z3_mk_true, c) : K (Z3_mk_false, c)) : zbv (c, w, cval (e));
    if (e->op == SYM)
    {
        std::string n = "s" + std::to_string (e->lo);
        return K (Z3_mk_const, c, K (Z3_mk_string_symbol, c, n.c_str ()), w == 1 ? K (Z3_mk_bool_sort, c) : K (Z3_mk_bv_sort, c, w));
    }
    auto fsort = [&] (unsigned ww) { return ww == 32 ? K (Z3_mk_fpa_sort_single, c) : K (Z3_mk_fpa_sort_double, c); };
    auto tofp = [&] (Z3_ast v, unsigned ww) { return K (Z3_mk_fpa_to_fp_bv, c, v, fsort (ww)); };
    // fp -> bits: canonical NaN. Real hardware propagates payloads, so NaN results are only
    // compared as NaN by the checks.
    auto frbits = [&] (Z3_ast f) { return K (Z3_mk_fpa_to_ieee_bv, c, f); };
    auto rne = [&] () { return K (Z3_mk_fpa_rne, c); };
    if (w == 1)
    {
        Z3_ast t[2];
        switch (e->op)
        {
            case AND: t[0] = L (0); t[1] = L (1); return K (Z3_mk_and, c, 2, t);
            case OR: t[0] = L (0); t[1] = L (1); return K (Z3_mk_or, c, 2, t);
            case XOR: if (is_const (e->a[1])) return K (Z3_mk_not, c, L (0)); return K (Z3_mk_xor, c, L (0), L (1));
            case EQ: return e->a[0]->w == 1 ? K (Z3_mk_iff, c, L (0), L (1)) : K (Z3_mk_eq, c, L (0), L (1));
            case ULT: return K (Z3_mk_bvult, c, B (0), B (1));
            case ULE: return K (Z3_mk_bvule, c, B (0), B (1));
            case SLT: return K (Z3_mk_bvslt, c, B (0), B (1));
            case SLE: return K (Z3_mk_bvsle, c, B (0), B (1));
            case ITE: return K (Z3_mk_ite, c, L (0), L (1), L (2));
            case EXTRACT: return K (Z3_mk_eq, c, K (Z3_mk_extract, c, e->aux, e->aux, B (0)), zbv (c, 1, 1));
            case FOEQ: {
                unsigned ow = e->a[0]->w;
                Z3_ast a = B (0), b = B (1);
                u64 m = ow == 32 ? 0x7fffffffull : 0x7fffffffffffffffull;
                Z3_ast z = zbv (c, ow, 0), mm = zbv (c, ow, m);
                Z3_ast bz[2] = {K (Z3_mk_eq, c, K (Z3_mk_bvand, c, a, mm), z), K (Z3_mk_eq, c, K (Z3_mk_bvand, c, b, mm), z)};
                Z3_ast o[2] = {K (Z3_mk_eq, c, a, b), K (Z3_mk_and, c, 2, bz)};
                Z3_ast al[3] = {K (Z3_mk_not, c, isnan (a, ow)), K (Z3_mk_not, c, isnan (b, ow)), K (Z3_mk_or, c, 2, o)};
                return K (Z3_mk_and, c, 3, al);
            }
            case FOLT: return f_lt (B (0), B (1), e->a[0]->w, false);
            case FOLE: return f_lt (B (0), B (1), e->a[0]->w, true);
            case FUNO: { unsigned ow = e->a[0]->w; Z3_ast o[2] = {isnan (B (0), ow), isnan (B (1), ow)}; return K (Z3_mk_or, c, 2, o); }
            default: {
                // arithmetic at width 1: go through a bit-vector
                Z3_ast r;
                switch (e->op)
                {
                    case ADD: case SUB: return K (Z3_mk_xor, c, L (0), L (1));
                    case MUL: t[0] = L (0); t[1] = L (1); return K (Z3_mk_and, c, 2, t);
                    case UDIV: r = K (Z3_mk_bvudiv, c, B (0), B (1)); break;
                    case UREM: r = K (Z3_mk_bvurem, c, B (0), B (1)); break;
                    case SHL: r = K (Z3_mk_bvshl, c, B (0), B (1)); break;
                    case LSHR: r = K (Z3_mk_bvlshr, c, B (0), B (1)); break;
                    case ASHR: return L (0);
                    default: {
                        std::vector<Z3_ast> as; for (unsigned i = 0; i < e->n; ++i) as.push_back (B (i));
                        r = uf (std::string ("op") + std::to_string (e->op) + "_" + std::to_string (e->aux), 1, as); break;
                    }
                }
                return K (Z3_mk_eq, c, r, zbv (c, 1, 1));
            }
        }
    }
    switch (e->op)
    {
        case ADD: return K (Z3_mk_bvadd, c, L (0), L (1));
        case SUB: return K (Z3_mk_bvsub, c, L (0), L (1));
        case MUL: return K (Z3_mk_bvmul, c, L (0), L (1));
        case UDIV: return K (Z3_mk_bvudiv, c, L (0), L (1));
        case SDIV: return K (Z3_mk_bvsdiv, c, L (0), L (1));
        case UREM: return K (Z3_mk_bvurem, c, L (0), L (1));
        case SREM: return K (Z3_mk_bvsrem, c, L (0), L (1));
        case AND: return K (Z3_mk_bvand, c, L (0), L (1));
        case OR: return K (Z3_mk_bvor, c, L (0), L (1));
        case XOR: return K (Z3_mk_bvxor, c, L (0), L (1));
        case SHL: return K (Z3_mk_bvshl, c, L (0), L (1));
        case LSHR: return K (Z3_mk_bvlshr, c, L (0), L (1));
        case ASHR: return K (Z3_mk_bvashr, c, L (0), L (1));
        case ITE: return K (Z3_mk_ite, c, L (0), L (1), L (2));
        case CONCAT: return K (Z3_mk_concat, c, B (0), B (1));
        case EXTRACT: return K (Z3_mk_extract, c, e->aux + w - 1, e->aux, B (0));
        case ZEXT: if (e->a[0]->w == 1) return K (Z3_mk_ite, c, L (0), zbv (c, w, 1), zbv (c, w, 0)); return K (Z3_mk_zero_ext, c, w - e->a[0]->w, L (0));
        case SEXT: if (e->a[0]->w == 1) return K (Z3_mk_ite, c, L (0), zbv (c, w, mask128 (w)), zbv (c, w, 0)); return K (Z3_mk_sign_ext, c, w - e->a[0]->w, L (0));
        default: break;
    }
    if (exact && (w == 32 || w == 64) && e->op != UF && e->op != FREM)
    {
        unsigned ow = e->a[0]->w;
        switch (e->op)
        {
            case FADD: return frbits (K (Z3_mk_fpa_add, c, rne (), tofp (L (0), ow), tofp (L (1), ow)));
            case FSUB: return frbits (K (Z3_mk_fpa_sub, c, rne (), tofp (L (0), ow), tofp (L (1), ow)));
            case FMUL: return frbits (K (Z3_mk_fpa_mul, c, rne (), tofp (L (0), ow), tofp (L (1), ow)));
            case FDIV: return frbits (K (Z3_mk_fpa_div, c, rne (), tofp (L (0), ow), tofp (L (1), ow)));
            case FSQRT: return frbits (K (Z3_mk_fpa_sqrt, c, rne (), tofp (L (0), ow)));
            case FTRUNC: return frbits (K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rtz, c), tofp (L (0), ow)));
            case FFLOOR: return frbits (K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rtn, c), tofp (L (0), ow)));
            case FCEIL: return frbits (K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rtp, c), tofp (L (0), ow)));
            case FROUND: return frbits (K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rna, c), tofp (L (0), ow)));
            case FRINT: return frbits (K (Z3_mk_fpa_round_to_integral, c, rne (), tofp (L (0), ow)));
            case FPEXT: case FPTRUNC: return frbits (K (Z3_mk_fpa_to_fp_float, c, rne (), tofp (L (0), ow), fsort (w)));
            case SITOFP: return frbits (K (Z3_mk_fpa_to_fp_signed, c, rne (), B (0), fsort (w)));
            case UITOFP: return frbits (K (Z3_mk_fpa_to_fp_unsigned, c, rne (), B (0), fsort (w)));
            case FPTOSI: case FPTOUI: {
                // x86-64 result for out-of-range operands
                Z3_ast f = tofp (L (0), ow);
                Z3_ast t = K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rtz, c), f);
                auto num = [&] (double d) { return K (Z3_mk_fpa_numeral_double, c, d, fsort (ow)); };
                double lo = w == 32 ? -2147483648.0 : -9223372036854775808.0, hi = -lo;
                auto si = [&] (Z3_ast tt) {
                    Z3_ast in[2] = {K (Z3_mk_fpa_geq, c, tt, num (lo)), K (Z3_mk_fpa_lt, c, tt, num (hi))};
                    return K (Z3_mk_ite, c, K (Z3_mk_and, c, 2, in), K (Z3_mk_fpa_to_sbv, c, K (Z3_mk_fpa_rtz, c), tt, w), zbv (c, w, (u128) 1 << (w - 1)));
                };
                if (e->op == FPTOSI) return si (t);
                if (w == 32)
                {
                    Z3_ast in[2] = {K (Z3_mk_fpa_geq, c, t, num (-9223372036854775808.0)), K (Z3_mk_fpa_lt, c, t, num (9223372036854775808.0))};
                    Z3_ast s64 = K (Z3_mk_ite, c, K (Z3_mk_and, c, 2, in), K (Z3_mk_fpa_to_sbv, c, K (Z3_mk_fpa_rtz, c), t, 64), zbv (c, 64, (u128) 1 << 63));
                    return K (Z3_mk_extract, c, 31, 0, s64);
                }
                Z3_ast big = K (Z3_mk_fpa_geq, c, f, num (9223372036854775808.0));
                Z3_ast sub = K (Z3_mk_fpa_sub, c, rne (), f, num (9223372036854775808.0));
                return K (Z3_mk_ite, c, big, K (Z3_mk_bvxor, c, si (K (Z3_mk_fpa_round_to_integral, c, K (Z3_mk_fpa_rtz, c), sub)), zbv (c, 64, (u128) 1 << 63)), si (t));
            }
            default: break;
        }
    }
    std::vector<Z3_ast> as;
    for (unsigned i = 0; i < e->n; ++i) as.push_back (B (i));
    return uf (std::string ("op") + std::to_string (e->op) + "_" + std::to_string (e->aux), w, as);
}
