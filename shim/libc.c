// C library functions used by the code under test, compiled with -fno-builtin.
typedef unsigned long size_t;
typedef unsigned long uint64_t;
typedef long int64_t;
typedef _Bool bool;
#define true 1
#define false 0
void *memcpy (void *, const void *, size_t);
bool vs_is_symbolic (uint64_t);
double vs_strtod (const char *s, size_t *used);
static double unbits (uint64_t b) { double d; memcpy (&d, &b, 8); return d; }
// ---------------------------------------------------------------- C library
// a number token (see TOK) is one unit whatever its payload bytes are
size_t strlen (const char *s)
{
    size_t n = 0;
    for (;;)
    {
        if (!vs_is_symbolic ((unsigned char) s[n]) && s[n] == 1 && (s[n + 1] == 'i' || s[n + 1] == 'd' || s[n + 1] == 's')) n += 11;
        else if (s[n]) ++n;
        else return n;
    }
}
int strcmp (const char *a, const char *b)
{
    while (*a && *a == *b) { ++a; ++b; }
    return (int) (unsigned char) *a - (int) (unsigned char) *b;
}
int strncmp (const char *a, const char *b, size_t n)
{
    while (n && *a && *a == *b) { ++a; ++b; --n; }
    return n ? (int) (unsigned char) *a - (int) (unsigned char) *b : 0;
}
char *strchr (const char *s, int c) { for (;; ++s) { if (*s == (char) c) return (char *) s; if (!*s) return 0; } }
void *memchr (const void *p, int c, size_t n)
{
    const unsigned char *s = p;
    for (size_t k = 0; k < n; ++k)
    {
        if (!vs_is_symbolic (s[k]) && s[k] == 1 && n - k > 10 && !vs_is_symbolic (s[k + 10]) && s[k + 10] == 1 && (s[k + 1] == 'i' || s[k + 1] == 'd' || s[k + 1] == 's')) { k += 10; continue; }
        if (s[k] == (unsigned char) c) return (void *) (s + k);
    }
    return 0;
}
int isalnum (int c) { return (c >= '0' && c <= '9') | (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isalpha (int c) { return (c >= 'a' && c <= 'z') | (c >= 'A' && c <= 'Z'); }
int isdigit (int c) { return c >= '0' && c <= '9'; }
int isspace (int c) { return (c == ' ') | (c >= 9 && c <= 13); }
int tolower (int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper (int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int errno_v;
int *__errno_location () { return &errno_v; }
#define TOK 1
// token: TOK type 8 bytes TOK ; type 'i' unsigned integer, 's' signed integer, 'd' double
static bool vs_tok (const char *s, char *t, uint64_t *v)
{
    if (vs_is_symbolic ((unsigned char) s[0]) || s[0] != TOK) return false;
    *t = s[1]; memcpy (v, s + 2, 8); return true;
}
unsigned long long vs_parse_ull (const char *s, char **end, int base, bool *neg, bool *ovf)
{
    const char *b = s;
    while (isspace ((unsigned char) *s)) ++s;
    *neg = false; *ovf = false;
    char t; uint64_t tv;
    if (vs_tok (s, &t, &tv))
    {
        if (end) *end = (char *) s + 11;
        if (t == 'd') return (unsigned long long) (long long) unbits (tv);
        return tv;
    }
    if (*s == '-') { *neg = true; ++s; } else if (*s == '+') ++s;
    if ((base == 0 || base == 16) && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) { base = 16; s += 2; }
    else if (base == 0) base = s[0] == '0' ? 8 : 10;
    bool any = false;
    unsigned long long v = 0;
    for (;; ++s)
    {
        int c = (unsigned char) *s, d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (~0ull - d) / base) *ovf = true;
        v = v * base + d;
    }
    if (end) *end = (char *) (any ? s : b);
    return v;
}
long strtol (const char *s, char **end, int base)
{
    bool neg, ovf; unsigned long long v = vs_parse_ull (s, end, base, &neg, &ovf);
    if (ovf || (neg ? v > (1ull << 63) : v > ~(1ull << 63)))
    {
        // a token holds the two's complement pattern
        char t; uint64_t tv; const char *q = s; while (isspace ((unsigned char) *q)) ++q;
        if (vs_tok (q, &t, &tv)) return (long) v;
        errno_v = 34; return neg ? (long) (1ull << 63) : (long) ~(1ull << 63);
    }
    return neg ? -(long) v : (long) v;
}
unsigned long strtoul (const char *s, char **end, int base)
{
    bool neg, ovf; unsigned long long v = vs_parse_ull (s, end, base, &neg, &ovf);
    if (ovf) { errno_v = 34; return ~0ul; }
    return neg ? -v : v;
}
long __isoc23_strtol (const char *s, char **e, int b) { return strtol (s, e, b); }
unsigned long __isoc23_strtoul (const char *s, char **e, int b) { return strtoul (s, e, b); }
long long strtoll (const char *s, char **e, int b) { return strtol (s, e, b); }
unsigned long long strtoull (const char *s, char **e, int b) { return strtoul (s, e, b); }
long long __isoc23_strtoll (const char *s, char **e, int b) { return strtol (s, e, b); }
unsigned long long __isoc23_strtoull (const char *s, char **e, int b) { return strtoul (s, e, b); }
// a short decimal number whose characters may be symbolic: the digits stay symbolic
static bool vs_decimal (const char *s, size_t *used, double *v)
{
    static const double P[] = {1, 10, 100, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15};
    bool sym = false;
    for (size_t k = 0; k < 24; ++k)
    {
        if (vs_is_symbolic ((unsigned char) s[k])) { sym = true; break; }
        if (!s[k]) break;
    }
    if (!sym) return false;
    size_t i = 0, nd = 0, frac = 0;
    bool neg = false;
    if (s[i] == '-') { neg = true; ++i; } else if (s[i] == '+') ++i;
    uint64_t m = 0;
    const size_t start = i;
    while (isdigit ((unsigned char) s[i])) { m = m * 10 + (uint64_t) (s[i] - '0'); ++nd; ++i; if (nd > 15) return false; }
    if (nd == 1 && (s[i] == 'x' || s[i] == 'X') && s[start] == '0') return false;
    if (s[i] == '.')
    {
        size_t j = i + 1;
        while (isdigit ((unsigned char) s[j])) { m = m * 10 + (uint64_t) (s[j] - '0'); ++nd; ++frac; ++j; if (nd > 15) return false; }
        if (nd) i = j;
    }
    if (!nd)
    {
        if (s[start] == 'i' || s[start] == 'I' || s[start] == 'n' || s[start] == 'N') return false;
        *used = 0; *v = 0; return true;
    }
    if (s[i] == 'e' || s[i] == 'E')
    {
        const size_t k = i + 1 + (s[i + 1] == '-' || s[i + 1] == '+');
        if (isdigit ((unsigned char) s[k])) return false;
    }
    double d = (double) m;
    if (frac) d = d / P[frac];
    *v = neg ? -d : d; *used = i;
    return true;
}
double strtod (const char *s, char **end)
{
    const char *b = s;
    while (isspace ((unsigned char) *s)) ++s;
    char t; uint64_t tv;
    if (vs_tok (s, &t, &tv))
    {
        if (end) *end = (char *) s + 11;
        // a subnormal value is a range error
        if (t == 'd' && (((tv >> 52) & 0x7ff) == 0) & ((tv << 12) != 0)) errno_v = 34;
        return t == 'd' ? unbits (tv) : t == 's' ? (double) (int64_t) tv : (double) tv;
    }
    size_t used = 0;
    double v;
    if (vs_decimal (s, &used, &v)) { if (end) *end = (char *) (used ? s + used : b); return v; } // never out of range
    v = vs_strtod (s, &used);
    if (end) *end = (char *) (used ? s + used : b);
    if (used && v != 0 && v < 2.2250738585072014e-308 && v > -2.2250738585072014e-308) errno_v = 34;
    if (used && (v > 1.7976931348623157e308 || v < -1.7976931348623157e308) && s[used - 1] >= '0' && s[used - 1] <= '9') errno_v = 34;
    return v;
}
float strtof (const char *s, char **end) { return (float) strtod (s, end); }
char *getenv (const char *n) { return 0; }

