// Hash-consed bit-vector expressions with constant folding, native evaluation and Z3 lowering.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef uint64_t u64;
typedef unsigned __int128 u128;

enum Op : uint8_t {
    CONST, SYM,
    ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    EQ, ULT, ULE, SLT, SLE, ITE, CONCAT, EXTRACT, ZEXT, SEXT,
    // IEEE operations on bit patterns (w = result width, operand width from a[0]->w)
    FOEQ, FOLT, FOLE, FUNO,
    FADD, FSUB, FMUL, FDIV, FREM, FSQRT, FPTOSI, FPTOUI, SITOFP, UITOFP, FPEXT, FPTRUNC,
    FTRUNC, FFLOOR, FCEIL, FROUND, FRINT,
    UF // aux = function id
};
enum UFId { UF_SIN, UF_COS, UF_TAN, UF_POW, UF_EXP, UF_LOG, UF_LOG2, UF_LOG10, UF_ATAN, UF_ATAN2, UF_ASIN, UF_ACOS, UF_HASH, UF_FMOD, UF_HYPOT, UF_CBRT, UF_ROUND, UF_N };
extern const char *uf_names[];
int fmt_double (char *buf, size_t n, double v, int prec, int mode); // mode 0 general 1 fixed 2 scientific 3 hex

struct Expr {
    Op op;
    bool abs; // contains an operation the first solver pass abstracts (FP arithmetic, UF)
    uint16_t w;
    uint32_t aux;
    uint32_t id;
    uint32_t n;
    u64 lo, hi;
    Expr *a[3];
};
typedef Expr *E;

struct ExprKeyHash {
    size_t operator() (const Expr *e) const {
        size_t h = e->op * 1000003u + e->w;
        auto mix = [&] (u64 v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
        mix (e->aux); mix (e->lo); mix (e->hi);
        for (unsigned i = 0; i < e->n; ++i) mix (e->a[i]->id);
        return h;
    }
};
struct ExprKeyEq {
    bool operator() (const Expr *x, const Expr *y) const {
        if (x->op != y->op || x->w != y->w || x->aux != y->aux || x->n != y->n || x->lo != y->lo || x->hi != y->hi) return false;
        for (unsigned i = 0; i < x->n; ++i) if (x->a[i] != y->a[i]) return false;
        return true;
    }
};

static inline u64 mask64 (unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline u128 mask128 (unsigned w) { return w >= 128 ? ~(u128) 0 : (((u128) 1 << w) - 1); }
static inline int64_t sext64 (u64 v, unsigned w) { if (w >= 64) return (int64_t) v; u64 m = 1ull << (w - 1); v &= mask64 (w); return (int64_t) ((v ^ m) - m); }
static inline double bits_d (u64 v) { double d; memcpy (&d, &v, 8); return d; }
static inline u64 d_bits (double d) { u64 v; memcpy (&v, &d, 8); return v; }
static inline float bits_f (u64 v) { uint32_t x = (uint32_t) v; float f; memcpy (&f, &x, 4); return f; }
static inline u64 f_bits (float f) { uint32_t x; memcpy (&x, &f, 4); return x; }

// ---- construction
E mk_const (unsigned w, u128 v);
E mk_sym (unsigned w, const std::string &name, u64 *id_out = nullptr);
E mk (Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0);
E mk_extract (E a, unsigned lo, unsigned w);
E mk_concat (E hi, E lo);
E mk_zext (E a, unsigned w);
E mk_sext (E a, unsigned w);
E mk_not (E a); // width 1
E mk_eq (E a, E b);
E mk_eq_raw (E a, E b);
E mk_ite (E c, E a, E b);
static inline bool is_const (E e) { return e->op == CONST; }
static inline u128 cval (E e) { return ((u128) e->hi << 64) | e->lo; }

// ---- evaluation: concrete semantics of one operation (used by folding, by the interpreter's
// fast path and by native model evaluation)
u128 eval_op (const Expr *e, const u128 *v, const unsigned *vw);
u64 fold2 (Op op, unsigned w, unsigned ow, u64 a, u64 b); // scalar fast path, ow = operand width

struct Assign {
    std::unordered_map<u64, u64> val; // symbol id -> value (default 0)
    mutable std::unordered_map<const Expr *, u128> memo;
    u128 eval (const Expr *e) const;
};

struct SymInfo { std::string name; unsigned w; };
extern std::deque<SymInfo> g_syms;

std::string expr_str (E e, int depth = 6);

// ---- Z3
struct Lowering {
    Z3_context ctx;
    bool exact; // exact floating point or uninterpreted
    std::unordered_map<const Expr *, Z3_ast> memo;
    std::vector<Z3_ast> side; // side conditions (axioms) produced while lowering
    std::unordered_map<std::string, Z3_func_decl> ufs;
    std::vector<E> divs, subs, adds, muls, ftis; // abstracted terms seen, for axioms
    Z3_ast lower (E e);      // BV (or Bool if w==1)
    Z3_ast bv (E e);         // always BV
    Z3_ast low1 (E e);
    Z3_ast uf (const std::string &n, unsigned w, const std::vector<Z3_ast> &args);
    Z3_ast isnan (Z3_ast v, unsigned w);
    Z3_ast f_lt (Z3_ast a, Z3_ast b, unsigned w, bool orEq);
};
