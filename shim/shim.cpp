// The part of the C and C++ run-time libraries that harness IR refers to but that is not in
// headers. Linked with every harness before symbolic execution.
#include "rt.h"
#include <any>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <filesystem>
#include <functional>
#include <getopt.h>
#include <list>
#include <map>
#include <new>
#include <stdexcept>
#include <typeinfo>
#include <unordered_map>
#include <system_error>
extern "C" {
void *vs_malloc (size_t);
uint64_t vs_hash (const void *, size_t, uint64_t);
double vs_strtod (const char *s, size_t *used);
int vs_fmt (char *buf, uint64_t bits, int prec, int mode);
uint64_t vs_round (uint64_t bits, int prec);
}
// ---------------------------------------------------------------- type information
// the key function of this class makes the compiler emit the type information of all built-in types
namespace __cxxabiv1
{
class __fundamental_type_info : public std::type_info
{
public:
    explicit __fundamental_type_info (const char *n) : std::type_info (n) {}
    virtual ~__fundamental_type_info ();
};
__fundamental_type_info::~__fundamental_type_info () {}
}
namespace std { type_info::~type_info () {} }
// ---------------------------------------------------------------- memory
static uint64_t alloc_limit = 1ull << 40;
void vs_alloc_limit (uint64_t n) { alloc_limit = n; }
void *operator new (size_t n)
{
    if (n > alloc_limit) throw std::bad_alloc ();
    return vs_malloc (n);
}
void *operator new[] (size_t n) { return operator new (n); }
void *operator new (size_t n, const std::nothrow_t &) noexcept { return n > alloc_limit ? nullptr : vs_malloc (n); }
void *operator new[] (size_t n, const std::nothrow_t &) noexcept { return n > alloc_limit ? nullptr : vs_malloc (n); }
void *operator new (size_t n, std::align_val_t) { return operator new (n); }
void *operator new[] (size_t n, std::align_val_t) { return operator new (n); }
// ---------------------------------------------------------------- C library (libc.c)
#define TOK 1
extern "C" {
unsigned long long vs_parse_ull (const char *s, char **end, int base, bool *neg, bool *ovf);
}
static unsigned long long parse_ull (const char *s, char **end, int base, bool &neg, bool &ovf) { return vs_parse_ull (s, end, base, &neg, &ovf); }
extern "C" {
// ---------------------------------------------------------------- getopt_long
char *optarg; int optind = 1, opterr = 1, optopt = '?';
static int nextchar = 0;
static bool is_opt (const char *a) { return a[0] == '-' && a[1] != 0; }
int getopt_long (int argc, char *const *cargv, const char *shorts, const struct option *longs, int *longindex)
{
    char **argv = (char **) cargv;
    if (optind == 0) { optind = 1; nextchar = 0; }
    optarg = nullptr;
    if (nextchar == 0)
    {
        // GNU permutation: bring the next option forward
        int k = optind;
        while (k < argc && !is_opt (argv[k])) ++k;
        if (k >= argc) return -1;
        int lead = k - optind; // operands to move behind the option
        bool dd = strcmp (argv[k], "--") == 0;
        int take = 1;
        if (!dd)
        {
            const char *a = argv[k];
            if (a[1] == '-')
            {
                const char *n = a + 2; size_t len = 0; while (n[len] && n[len] != '=') ++len;
                int hit = -1, cnt = 0;
                for (int i = 0; longs[i].name; ++i)
                    if (strncmp (longs[i].name, n, len) == 0)
                    {
                        if (strlen (longs[i].name) == len) { hit = i; cnt = 1; break; }
                        hit = i; ++cnt;
                    }
                if (cnt == 1 && longs[hit].has_arg == 1 && n[len] != '=') take = 2;
            }
            else
            {
                for (const char *q = a + 1; *q; ++q)
                {
                    const char *o = strchr (shorts, *q);
                    if (!o) continue;
                    if (o[1] == ':') { if (!q[1]) take = 2; break; }
                }
            }
        }
        if (k + take > argc) take = argc - k;
        for (int t = 0; t < take; ++t)
        {
            char *v = argv[k + t];
            for (int i = k + t; i > optind + t; --i) argv[i] = argv[i - 1];
            argv[optind + t] = v;
        }
        (void) lead;
        char *a = argv[optind];
        if (dd) { ++optind; return -1; }
        if (a[1] == '-')
        {
            ++optind;
            const char *n = a + 2; size_t len = 0; while (n[len] && n[len] != '=') ++len;
            int hit = -1, cnt = 0;
            for (int i = 0; longs[i].name; ++i)
                if (strncmp (longs[i].name, n, len) == 0)
                {
                    if (strlen (longs[i].name) == len) { hit = i; cnt = 1; break; }
                    hit = i; ++cnt;
                }
            if (cnt != 1) { optopt = 0; return '?'; }
            if (n[len] == '=')
            {
                if (longs[hit].has_arg == 0) { optopt = longs[hit].val; return '?'; }
                optarg = (char *) n + len + 1;
            }
            else if (longs[hit].has_arg == 1)
            {
                if (optind >= argc) { optopt = longs[hit].val; return '?'; }
                optarg = argv[optind++];
            }
            if (longindex) *longindex = hit;
            if (longs[hit].flag) { *longs[hit].flag = longs[hit].val; return 0; }
            return longs[hit].val;
        }
        nextchar = 1;
    }
    char *a = argv[optind];
    char c = a[nextchar++];
    const char *o = c == ':' ? nullptr : strchr (shorts, c);
    bool last = a[nextchar] == 0;
    if (!o) { if (last) { nextchar = 0; ++optind; } optopt = c; return '?'; }
    if (o[1] == ':')
    {
        if (!last) { optarg = a + nextchar; ++optind; }
        else if (o[2] != ':')
        {
            if (optind + 1 >= argc) { nextchar = 0; ++optind; optopt = c; return '?'; }
            optarg = argv[optind + 1]; optind += 2;
        }
        else ++optind;
        nextchar = 0;
        return c;
    }
    if (last) { nextchar = 0; ++optind; }
    return c;
}
}
// ---------------------------------------------------------------- language support
namespace __cxxabiv1
{
extern "C" void __cxa_bad_cast () { throw std::bad_cast (); }
extern "C" void __cxa_bad_typeid () { throw std::bad_typeid (); }
extern "C" void __cxa_throw_bad_array_new_length () { throw std::bad_array_new_length (); }
}
namespace std
{
exception::~exception () noexcept {}
const char *exception::what () const noexcept { return "std::exception"; }
bad_exception::~bad_exception () noexcept {}
const char *bad_exception::what () const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc () noexcept {}
const char *bad_alloc::what () const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length () noexcept {}
const char *bad_array_new_length::what () const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast () noexcept {}
const char *bad_cast::what () const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid () noexcept {}
const char *bad_typeid::what () const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call () noexcept {}
const char *bad_function_call::what () const noexcept { return "bad_function_call"; }
static const char *dup (const char *s, size_t n)
{
    char *p = (char *) vs_malloc (n + 1); memcpy (p, s, n); p[n] = 0; return p;
}
__cow_string::__cow_string (const std::string &s) : _M_p (dup (s.data (), s.size ())) {}
__cow_string::__cow_string (const char *s, size_t n) : _M_p (dup (s, n)) {}
__cow_string::__cow_string (const __cow_string &o) noexcept : _M_p (o._M_p) {}
__cow_string &__cow_string::operator= (const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string () {}
#define EXC(C, B) C::C (const string &s) : B (s) {} C::C (const char *s) : B (s) {} C::~C () noexcept {}
logic_error::logic_error (const string &s) : _M_msg (s) {}
logic_error::logic_error (const char *s) : _M_msg (s, strlen (s)) {}
logic_error::logic_error (const logic_error &o) noexcept : exception (o), _M_msg (o._M_msg) {}
logic_error &logic_error::operator= (const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error () noexcept {}
const char *logic_error::what () const noexcept { return _M_msg._M_p; }
EXC (domain_error, logic_error)
EXC (invalid_argument, logic_error)
EXC (length_error, logic_error)
EXC (out_of_range, logic_error)
runtime_error::runtime_error (const string &s) : _M_msg (s) {}
runtime_error::runtime_error (const char *s) : _M_msg (s, strlen (s)) {}
runtime_error::runtime_error (const runtime_error &o) noexcept : exception (o), _M_msg (o._M_msg) {}
runtime_error &runtime_error::operator= (const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error () noexcept {}
const char *runtime_error::what () const noexcept { return _M_msg._M_p; }
EXC (range_error, runtime_error)
EXC (overflow_error, runtime_error)
EXC (underflow_error, runtime_error)
void __throw_bad_alloc () { throw bad_alloc (); }
void __throw_bad_array_new_length () { throw bad_array_new_length (); }
void __throw_bad_cast () { throw bad_cast (); }
void __throw_bad_typeid () { throw bad_typeid (); }
void __throw_logic_error (const char *s) { throw logic_error (s); }
void __throw_domain_error (const char *s) { throw domain_error (s); }
void __throw_invalid_argument (const char *s) { throw invalid_argument (s); }
void __throw_length_error (const char *s) { throw length_error (s); }
void __throw_out_of_range (const char *s) { throw out_of_range (s); }
void __throw_out_of_range_fmt (const char *s, ...) { throw out_of_range (s); }
void __throw_runtime_error (const char *s) { throw runtime_error (s); }
void __throw_range_error (const char *s) { throw range_error (s); }
void __throw_overflow_error (const char *s) { throw overflow_error (s); }
void __throw_underflow_error (const char *s) { throw underflow_error (s); }
void __throw_ios_failure (const char *s) { throw runtime_error (s); }
void __throw_ios_failure (const char *s, int) { throw runtime_error (s); }
void __throw_bad_function_call () { throw bad_function_call (); }
void __throw_system_error (int) { throw runtime_error ("system error"); }
bool uncaught_exception () noexcept { return false; }
int uncaught_exceptions () noexcept { return 0; }
size_t _Hash_bytes (const void *p, size_t n, size_t seed) { return vs_hash (p, n, seed); }
namespace __detail
{
// a single bucket: container behaviour does not depend on the number of buckets; many for large containers of known keys
static bool buckets;
void buckets_on (bool on) { buckets = on; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash (size_t b, size_t n, size_t k) const
{
    if (!buckets || n + k <= b) return {false, 0};
    return {true, _M_next_bkt (2 * (n + k))};
}
size_t _Prime_rehash_policy::_M_next_bkt (size_t n) const { return buckets ? n | 1 : 1; }
void _List_node_base::_M_hook (_List_node_base *p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook () noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap (_List_node_base &x, _List_node_base &y) noexcept
{
    bool ex = x._M_next == &x, ey = y._M_next == &y;
    std::swap (x._M_next, y._M_next); std::swap (x._M_prev, y._M_prev);
    if (!ey) { x._M_next->_M_prev = x._M_prev->_M_next = &x; } else { x._M_next = x._M_prev = &x; }
    if (!ex) { y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer (_List_node_base *f, _List_node_base *l) noexcept
{
    if (this != l)
    {
        l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f;
        _List_node_base *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
    }
}
}
// red-black trees: an unbalanced binary search tree has the same observable behaviour
_Rb_tree_node_base *_Rb_tree_increment (_Rb_tree_node_base *x) noexcept
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment (const _Rb_tree_node_base *x) noexcept { return _Rb_tree_increment (const_cast<_Rb_tree_node_base *> (x)); }
_Rb_tree_node_base *_Rb_tree_decrement (_Rb_tree_node_base *x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    _Rb_tree_node_base *y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement (const _Rb_tree_node_base *x) noexcept { return _Rb_tree_decrement (const_cast<_Rb_tree_node_base *> (x)); }
void _Rb_tree_insert_and_rebalance (const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) noexcept
{
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase (_Rb_tree_node_base *const z, _Rb_tree_node_base &h) noexcept
{
    auto repl = [&] (_Rb_tree_node_base *u, _Rb_tree_node_base *v) {
        if (h._M_parent == u) h._M_parent = v;
        else if (u == u->_M_parent->_M_left) u->_M_parent->_M_left = v;
        else u->_M_parent->_M_right = v;
        if (v) v->_M_parent = u->_M_parent; };
    auto mn = [] (_Rb_tree_node_base *n) { while (n->_M_left) n = n->_M_left; return n; };
    auto mx = [] (_Rb_tree_node_base *n) { while (n->_M_right) n = n->_M_right; return n; };
    if (h._M_left == z) h._M_left = z->_M_right ? mn (z->_M_right) : z->_M_parent;
    if (h._M_right == z) h._M_right = z->_M_left ? mx (z->_M_left) : z->_M_parent;
    if (!z->_M_left) repl (z, z->_M_right);
    else if (!z->_M_right) repl (z, z->_M_left);
    else
    {
        _Rb_tree_node_base *y = mn (z->_M_right);
        if (y->_M_parent != z) { repl (y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        repl (z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
    }
    return z;
}
// ---------------------------------------------------------------- locales
locale::locale () noexcept : _M_impl (0) {}
locale::locale (const locale &) noexcept : _M_impl (0) {}
locale::~locale () noexcept {}
const locale &locale::operator= (const locale &) noexcept { return *this; }
bool locale::operator== (const locale &) const noexcept { return true; }
const locale &locale::classic () { static locale l; return l; }
locale locale::global (const locale &l) { return l; }
string locale::name () const { return "C"; }
template<> void basic_ios<char>::_M_cache_locale (const locale &) { _M_ctype = 0; _M_num_put = 0; _M_num_get = 0; }
template<> char basic_ios<char>::widen (char c) const { return c; }
template<> char basic_ios<char>::narrow (char c, char) const { return c; }
template<> locale basic_ios<char>::imbue (const locale &l) { return l; }
// ---------------------------------------------------------------- ios_base
ios_base::ios_base () noexcept : _M_precision (), _M_width (), _M_flags (), _M_exception (), _M_streambuf_state (), _M_callbacks (0), _M_word_zero (), _M_word_size (_S_local_word_size), _M_word (_M_local_word), _M_ios_locale () {}
ios_base::~ios_base () {}
void ios_base::_M_init () noexcept
{
    _M_precision = 6; _M_width = 0; _M_flags = skipws | dec;
}
locale ios_base::imbue (const locale &l) noexcept { return l; }
void ios_base::_M_move (ios_base &o) noexcept { _M_precision = o._M_precision; _M_width = o._M_width; _M_flags = o._M_flags; _M_exception = o._M_exception; _M_streambuf_state = o._M_streambuf_state; }
void ios_base::_M_swap (ios_base &o) noexcept
{
    std::swap (_M_precision, o._M_precision); std::swap (_M_width, o._M_width); std::swap (_M_flags, o._M_flags); std::swap (_M_exception, o._M_exception); std::swap (_M_streambuf_state, o._M_streambuf_state);
}
void ios_base::_M_call_callbacks (event) noexcept {}
bool ios_base::sync_with_stdio (bool) { return true; }
ios_base::Init::Init () {}
ios_base::Init::~Init () {}
// ---------------------------------------------------------------- formatted output
static void put_padded (ostream &o, const char *p, size_t n, char sign_first = 0)
{
    streamsize w = o.width (); o.width (0);
    streambuf *b = o.rdbuf ();
    size_t pad = (streamsize) n < w ? w - n : 0;
    auto adj = o.flags () & ios_base::adjustfield;
    bool ok = true;
    auto fillN = [&] { for (size_t i = 0; ok && i < pad; ++i) ok = b->sputc (o.fill ()) != EOF; };
    size_t lead = adj == ios_base::internal && n && (p[0] == '-' || p[0] == '+') ? 1 : 0;
    if (lead) ok = b->sputn (p, 1) == 1;
    if (adj != ios_base::left) fillN ();
    if (ok) ok = b->sputn (p + lead, n - lead) == (streamsize) (n - lead);
    if (adj == ios_base::left) fillN ();
    if (!ok) o.setstate (ios_base::badbit);
}
static void put_token (ostream &o, char t, uint64_t v)
{
    char b[11]; b[0] = TOK; b[1] = t; memcpy (b + 2, &v, 8); b[10] = TOK;
    o.width (0);
    if (o.rdbuf ()->sputn (b, 11) != 11) o.setstate (ios_base::badbit);
}
static void put_int (ostream &o, uint64_t v, bool neg, uint64_t mag, char type = 'i')
{
    ostream::sentry s (o);
    if (!s) return;
    // padded numbers (file names) become concrete: one path per value
    if (vs_is_symbolic (v) && o.width () > 0) { v = vs_concretize (v); mag = vs_concretize (mag); neg = vs_concretize (neg); }
    if (vs_is_symbolic (v)) { put_token (o, type, v); return; }
    char b[32]; int k = 32;
    auto bf = o.flags () & ios_base::basefield;
    unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10;
    if (base != 10) { mag = v; neg = false; }
    do { b[--k] = "0123456789abcdef"[mag % base]; mag /= base; } while (mag);
    if (neg) b[--k] = '-';
    else if (o.flags () & ios_base::showpos) b[--k] = '+';
    put_padded (o, b + k, 32 - k);
}
template<> template<> ostream &ostream::_M_insert (long v) { put_int (*this, (uint64_t) v, v < 0, v < 0 ? -(uint64_t) v : (uint64_t) v, 's'); return *this; }
template<> template<> ostream &ostream::_M_insert (unsigned long v) { put_int (*this, v, false, v); return *this; }
template<> template<> ostream &ostream::_M_insert (long long v) { put_int (*this, (uint64_t) v, v < 0, v < 0 ? -(uint64_t) v : (uint64_t) v, 's'); return *this; }
template<> template<> ostream &ostream::_M_insert (unsigned long long v) { put_int (*this, v, false, v); return *this; }
template<> template<> ostream &ostream::_M_insert (bool v)
{
    if (flags () & ios_base::boolalpha) { sentry s (*this); if (s) { const char *p = v ? "true" : "false"; put_padded (*this, p, strlen (p)); } }
    else put_int (*this, v, false, v);
    return *this;
}
static void put_double (ostream &o, double v)
{
    ostream::sentry s (o);
    if (!s) return;
    uint64_t bits = vs_bits (v);
    auto ff = o.flags () & ios_base::floatfield;
    int mode = ff == ios_base::fixed ? 1 : ff == ios_base::scientific ? 2 : ff == (ios_base::fixed | ios_base::scientific) ? 3 : 0;
    int prec = (int) o.precision ();
    if (mode == 0 && prec == 0) prec = 1;
    if (vs_is_symbolic (bits))
    {
        bool exact = (mode == 0 && prec >= 17) || (mode == 2 && prec >= 16) || mode == 3;
        put_token (o, 'd', exact ? bits : vs_round (bits, prec + mode * 1000));
        return;
    }
    char b[400];
    int n = vs_fmt (b, bits, prec, mode);
    if ((o.flags () & ios_base::showpos) && b[0] != '-') { char c[400]; c[0] = '+'; memcpy (c + 1, b, n); put_padded (o, c, n + 1); return; }
    put_padded (o, b, n);
}
template<> template<> ostream &ostream::_M_insert (double v) { put_double (*this, v); return *this; }
template<> template<> ostream &ostream::_M_insert (long double v) { put_double (*this, (double) v); return *this; }
template<> template<> ostream &ostream::_M_insert (const void *p) { put_int (*this, (uint64_t) p, false, (uint64_t) p); return *this; }
// ---------------------------------------------------------------- formatted input
template<> istream::sentry::sentry (istream &in, bool noskip) : _M_ok (false)
{
    ios_base::iostate err = ios_base::goodbit;
    if (in.good ())
    {
        if (in.tie ()) in.tie ()->flush ();
        if (!noskip && (in.flags () & ios_base::skipws))
        {
            int c = in.rdbuf ()->sgetc ();
            while (c != EOF && isspace (c)) c = in.rdbuf ()->snextc ();
            if (c == EOF) err |= ios_base::eofbit;
        }
    }
    if (in.good () && err == ios_base::goodbit) _M_ok = true;
    else { err |= ios_base::failbit; in.setstate (err); }
}
template<> istream &ws (istream &in)
{
    int c = in.rdbuf ()->sgetc ();
    while (c != EOF && isspace (c)) c = in.rdbuf ()->snextc ();
    if (c == EOF) in.setstate (ios_base::eofbit);
    return in;
}
// read a token or the longest number-like text; t = 0 on no text
static ios_base::iostate get_text (istream &in, bool fp, string &txt, char &t, uint64_t &tv)
{
    streambuf *b = in.rdbuf ();
    t = 0;
    int c = b->sgetc ();
    if (c != EOF && !vs_is_symbolic (c) && c == TOK)
    {
        char buf[11];
        if (b->sgetn (buf, 11) != 11) return ios_base::failbit | ios_base::eofbit;
        t = buf[1]; memcpy (&tv, buf + 2, 8);
        return b->sgetc () == EOF ? ios_base::eofbit : ios_base::goodbit;
    }
    bool dot = false, ex = false, dig = false;
    while (true)
    {
        if (c == EOF) return ios_base::eofbit;
        bool sgn = c == '-' || c == '+';
        if (sgn) { if (!(txt.empty () || (fp && (txt.back () == 'e' || txt.back () == 'E')))) return ios_base::goodbit; }
        else if (c >= '0' && c <= '9') dig = true;
        else if (fp && c == '.') { if (dot || ex) return ios_base::goodbit; dot = true; }
        else if (fp && (c == 'e' || c == 'E')) { if (ex || !dig) return ios_base::goodbit; ex = true; }
        else return ios_base::goodbit;
        txt += (char) c;
        c = b->snextc ();
    }
}
template<typename T> static void get_int (istream &in, T &v)
{
    istream::sentry s (in);
    if (!s) return;
    string txt; char t; uint64_t tv;
    ios_base::iostate err = get_text (in, false, txt, t, tv);
    if (t) v = t == 'd' ? (T) vs_unbits (tv) : (T) tv;
    else
    {
        char *e; bool neg, ovf;
        unsigned long long m = txt.empty () ? 0 : parse_ull (txt.c_str (), &e, 10, neg, ovf);
        if (txt.empty () || e == txt.c_str ()) { v = 0; err |= ios_base::failbit; }
        else if (is_signed<T>::value)
        {
            unsigned long long lim = (unsigned long long) numeric_limits<T>::max () + neg;
            if (ovf || m > lim) { v = neg ? numeric_limits<T>::min () : numeric_limits<T>::max (); err |= ios_base::failbit; }
            else v = (T) (neg ? -m : m);
        }
        else if (ovf || m > (unsigned long long) numeric_limits<T>::max ()) { v = numeric_limits<T>::max (); err |= ios_base::failbit; }
        else v = (T) (neg ? -m : m);
    }
    if (err) in.setstate (err);
}
template<typename T> static void get_fp (istream &in, T &v)
{
    istream::sentry s (in);
    if (!s) return;
    string txt; char t; uint64_t tv;
    ios_base::iostate err = get_text (in, true, txt, t, tv);
    if (t) v = t == 'd' ? (T) vs_unbits (tv) : t == 's' ? (T) (int64_t) tv : (T) tv;
    else
    {
        size_t used = 0;
        double d = txt.empty () ? 0 : vs_strtod (txt.c_str (), &used);
        if (used != txt.size () || txt.empty ()) { v = 0; err |= ios_base::failbit; }
        else v = (T) d;
    }
    if (err) in.setstate (err);
}
template<> streamsize __copy_streambufs_eof (streambuf *in, streambuf *out, bool &ineof)
{
    streamsize n = 0;
    ineof = true;
    for (int c = in->sgetc (); c != EOF; c = in->snextc ())
    {
        if (out->sputc ((char) c) == EOF) { ineof = false; break; }
        ++n;
    }
    return n;
}
template<> template<> istream &istream::_M_extract (bool &v) { unsigned long u = 0; get_int (*this, u); v = u != 0; return *this; }
template<> template<> istream &istream::_M_extract (unsigned short &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (unsigned int &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (long &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (unsigned long &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (long long &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (unsigned long long &v) { get_int (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (float &v) { get_fp (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (double &v) { get_fp (*this, v); return *this; }
template<> template<> istream &istream::_M_extract (long double &v) { get_fp (*this, v); return *this; }
template<> istream &istream::operator>> (int &v) { get_int (*this, v); return *this; }
template<> istream &istream::operator>> (short &v) { get_int (*this, v); return *this; }
template<> istream &operator>> (istream &in, string &s)
{
    istream::sentry k (in);
    ios_base::iostate err = ios_base::goodbit;
    bool any = false;
    if (k)
    {
        s.clear ();
        int c = in.rdbuf ()->sgetc ();
        while (c != EOF && !isspace (c)) { s += (char) c; any = true; c = in.rdbuf ()->snextc (); }
        if (c == EOF) err |= ios_base::eofbit;
        in.width (0);
    }
    if (!any) err |= ios_base::failbit;
    if (err) in.setstate (err);
    return in;
}
}
// ---------------------------------------------------------------- files
namespace
{
struct VFile { std::string name, data, pending; bool exists; VFile *next; };
VFile *files;
uint64_t disk_limit = ~0ull;
VFile *vfind (const char *n, bool create)
{
    for (VFile *f = files; f; f = f->next) if (strcmp (f->name.c_str (), n) == 0) return f;
    if (!create) return nullptr;
    return files = new VFile {n, std::string (), std::string (), false, files};
}
// write what is buffered; the file keeps what fits
bool vflush (std::string &data, std::string &pending)
{
    uint64_t room = disk_limit > data.size () ? disk_limit - data.size () : 0;
    bool ok = pending.size () <= room;
    data.append (pending.data (), ok ? pending.size () : room);
    pending.clear ();
    return ok;
}
bool vwrite (std::string &data, std::string &pending, const char *p, size_t n, size_t buffer)
{
    if (disk_limit == ~0ull) { data.append (p, n); return true; }
    pending.append (p, n);
    return pending.size () < buffer || vflush (data, pending);
}
// stdout when the space is limited
struct LimitedOut : std::streambuf
{
    std::string data, pending;
    std::streamsize xsputn (const char *p, std::streamsize n) override { return vwrite (data, pending, p, n, 4096) ? n : 0; }
    int_type overflow (int_type c) override { if (c == EOF) return 0; char ch = (char) c; return vwrite (data, pending, &ch, 1, 4096) ? c : EOF; }
    int sync () override { return vflush (data, pending) ? 0 : -1; }
};
bool bad_name (const char *n) { return !*n || n[strlen (n) - 1] == '/'; }
}
void vs_disk_limit (uint64_t n) { disk_limit = n; }
void vs_file_put (const std::string &n, const std::string &d) { VFile *f = vfind (n.c_str (), true); f->data = d; f->exists = true; }
bool vs_file_get (const std::string &n, std::string &d) { VFile *f = vfind (n.c_str (), false); if (!f || !f->exists) return false; d = f->data; return true; }
void vs_file_remove (const std::string &n) { VFile *f = vfind (n.c_str (), false); if (f) f->exists = false; }
std::string vs_file_name (size_t k) { for (VFile *f = files; f; f = f->next) if (f->exists && k-- == 0) return f->name; return ""; }
size_t vs_file_count () { size_t n = 0; for (VFile *f = files; f; f = f->next) n += f->exists; return n; }
bool std::filesystem::exists (const path &p) { VFile *f = vfind (p.c_str (), false); return f && f->exists; }
namespace std
{
__basic_file<char>::__basic_file (__c_lock *) throw () : _M_cfile (0), _M_cfile_created (false) {}
__basic_file<char>::~__basic_file () {}
bool __basic_file<char>::is_open () const throw () { return _M_cfile != 0; }
codecvt<char, char, mbstate_t> *dummy_cvt;
template<> basic_filebuf<char>::basic_filebuf () : basic_streambuf<char> (), _M_lock (), _M_file (&_M_lock), _M_mode (ios_base::openmode (0)), _M_state_beg (), _M_state_cur (), _M_state_last (), _M_buf (0), _M_buf_size (0), _M_buf_allocated (false), _M_reading (false), _M_writing (false), _M_pback (), _M_pback_cur_save (0), _M_pback_end_save (0), _M_pback_init (false), _M_codecvt (0), _M_ext_buf (0), _M_ext_buf_size (0), _M_ext_next (0), _M_ext_end (0) {}
struct FileAccess : __basic_file<char> {};
template<> basic_filebuf<char> *basic_filebuf<char>::open (const char *n, ios_base::openmode m)
{
    if (_M_file.is_open ()) return 0;
    bool in = m & ios_base::in, out = m & (ios_base::out | ios_base::app);
    VFile *f = bad_name (n) ? nullptr : vfind (n, out && (!in || (m & ios_base::trunc)));
    if (!f || (!f->exists && !out) || (!f->exists && in && !(m & ios_base::trunc))) return 0;
    if (out) { if (!f->exists || (!in && !(m & ios_base::app)) || (m & ios_base::trunc)) f->data.clear (); f->exists = true; }
    *(VFile **) &_M_file = f;
    _M_mode = m;
    if (in && !out)
    {
        size_t n = f->data.size ();
        _M_buf = new char[n + 1]; _M_buf_size = n;
        memcpy (_M_buf, f->data.data (), n);
        this->setg (_M_buf, _M_buf, _M_buf + n);
    }
    return this;
}
template<> basic_filebuf<char> *basic_filebuf<char>::close ()
{
    if (!_M_file.is_open ()) return 0;
    VFile *f = *(VFile **) &_M_file;
    bool ok = f->pending.empty () || vflush (f->data, f->pending);
    *(VFile **) &_M_file = 0;
    this->setg (0, 0, 0);
    delete[] _M_buf; _M_buf = 0;
    return ok ? this : 0;
}
template<> streamsize basic_filebuf<char>::showmanyc () { return egptr () - gptr (); }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::underflow () { return gptr () < egptr () ? (int_type) (unsigned char) *gptr () : EOF; }
template<> basic_filebuf<char>::int_type basic_filebuf<char>::pbackfail (int_type c)
{
    if (gptr () > eback ()) { gbump (-1); if (c != EOF) *gptr () = (char) c; return c == EOF ? 0 : c; }
    return EOF;
}
template<> streamsize basic_filebuf<char>::xsputn (const char *p, streamsize n)
{
    if (!_M_file.is_open () || !(_M_mode & (ios_base::out | ios_base::app))) return 0;
    VFile *f = *(VFile **) &_M_file;
    return vwrite (f->data, f->pending, p, n, 8192) ? n : 0;
}
template<> basic_filebuf<char>::int_type basic_filebuf<char>::overflow (int_type c)
{
    if (c == EOF) return 0;
    char ch = (char) c;
    return xsputn (&ch, 1) == 1 ? c : EOF;
}
template<> basic_filebuf<char>::__streambuf_type *basic_filebuf<char>::setbuf (char *, streamsize) { return this; }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff (off_type o, ios_base::seekdir d, ios_base::openmode)
{
    if (!_M_file.is_open ()) return pos_type (off_type (-1));
    VFile *f = *(VFile **) &_M_file;
    if (_M_buf)
    {
        off_type cur = gptr () - eback (), end = egptr () - eback ();
        off_type p = d == ios_base::beg ? o : d == ios_base::cur ? cur + o : end + o;
        if (p < 0) return pos_type (off_type (-1));
        if (p > end) p = end;
        setg (eback (), eback () + p, egptr ());
        return pos_type (p);
    }
    if (d == ios_base::cur && o == 0) return pos_type (off_type (f->data.size ()));
    return pos_type (off_type (-1));
}
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos (pos_type p, ios_base::openmode m) { return seekoff (off_type (p), ios_base::beg, m); }
template<> int basic_filebuf<char>::sync ()
{
    if (!_M_file.is_open ()) return 0;
    VFile *f = *(VFile **) &_M_file;
    return f->pending.empty () || vflush (f->data, f->pending) ? 0 : -1;
}
template<> void basic_filebuf<char>::imbue (const locale &) {}
template<> streamsize basic_filebuf<char>::xsgetn (char *p, streamsize n)
{
    streamsize a = egptr () - gptr ();
    if (n > a) n = a;
    if (n > 0) { memcpy (p, gptr (), n); setg (eback (), gptr () + n, egptr ()); }
    return n < 0 ? 0 : n;
}
}
// ---------------------------------------------------------------- standard streams
#define VS_STD_STREAM(n,type,sym) extern char n[] asm (sym); alignas (16) char n[sizeof (type)] = {};
VS_STD_STREAM (st_in, std::istream, "_ZSt3cin")
VS_STD_STREAM (st_out, std::ostream, "_ZSt4cout")
VS_STD_STREAM (st_err, std::ostream, "_ZSt4cerr")
VS_STD_STREAM (st_log, std::ostream, "_ZSt4clog")
struct StdStreams
{
    std::stringbuf i, o, e, l;
    StdStreams () : i (std::ios_base::in), o (std::ios_base::out), e (std::ios_base::out), l (std::ios_base::out)
    {
        ::new ((void *) st_in) std::istream (&i);
        ::new ((void *) st_out) std::ostream (&o);
        ::new ((void *) st_err) std::ostream (&e);
        ::new ((void *) st_log) std::ostream (&l);
    }
    ~StdStreams () {}
};
static StdStreams *streams;
__attribute__ ((constructor (101))) static void init_streams () { streams = new StdStreams; }

vs_run_result vs_run (vs_main_fn f, const std::vector<std::string> &args, const std::string &in)
{
    std::stringbuf i (in, std::ios_base::in), o (std::ios_base::out), e (std::ios_base::out);
    ::new ((void *) st_in) std::istream (&i);
    LimitedOut lo;
    ::new ((void *) st_out) std::ostream (disk_limit == ~0ull ? (std::streambuf *) &o : &lo);
    ::new ((void *) st_err) std::ostream (&e);
    ::new ((void *) st_log) std::ostream (&e);
    size_t n = args.size ();
    char **argv = new char *[n + 1];
    for (size_t k = 0; k < n; ++k)
    {
        argv[k] = new char[args[k].size () + 1];
        memcpy (argv[k], args[k].c_str (), args[k].size () + 1);
    }
    argv[n] = nullptr;
    optind = 1; nextchar = 0;
    vs_run_result r;
    r.rc = f ((int) n, argv);
    if (disk_limit != ~0ull) lo.pubsync ();
    r.out = disk_limit == ~0ull ? o.str () : lo.data; r.err = e.str ();
    ::new ((void *) st_in) std::istream (&streams->i);
    ::new ((void *) st_out) std::ostream (&streams->o);
    ::new ((void *) st_err) std::ostream (&streams->e);
    ::new ((void *) st_log) std::ostream (&streams->l);
    return r;
}
void vs_buckets (bool on) { std::__detail::buckets_on (on); }
bool vs_get_int (const std::string &s, size_t &pos, uint64_t &v, uint64_t *minus)
{
    char *e; const char *b = s.c_str () + pos;
    const bool token = !vs_is_symbolic ((uint8_t) *b) && *b == TOK;
    bool neg, ovf;
    v = parse_ull (b, &e, 10, neg, ovf);
    if (neg) v = -v;
    if (minus) *minus = token ? (b[1] == 's' ? v >> 63 : 0) : (uint64_t) neg;
    pos = e - s.c_str ();
    return e != b && !ovf;
}
bool vs_get_double (const std::string &s, size_t &pos, double &v)
{
    char *e; const char *b = s.c_str () + pos;
    if (!vs_is_symbolic ((uint8_t) *b) && *b == TOK && b[1] == 'd') { memcpy (&v, b + 2, 8); pos += 11; return true; }
    v = strtod (b, &e);
    pos = e - s.c_str ();
    return e != b;
}
// ---------------------------------------------------------------- random numbers
static int rng_sym = 1;
void vs_rng_mode (int m) { rng_sym = m; }
uint64_t vs_draw (uint64_t lo, uint64_t hi)
{
    if (!rng_sym) return lo;
    uint64_t v = vs_sym ("draw", 64);
    vs_assume ((v >= lo) & (v <= hi));
    return v;
}
