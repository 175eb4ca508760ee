// C32: arithmetic, tolerant comparison, distances, centers, columns and printing of points
#include "gen.h"
#include "grid.h"
#include "spoc/point.h"
#include "spoc/utils.h"
using spoc::point::point;
typedef point<double> pd;
template<typename T> static uint64_t raw (T v) { uint64_t u = 0; memcpy (&u, &v, sizeof (T)); return u; }
template<typename T> static void check_arithmetic (const point<T> &a, const point<T> &b)
{
    const T A[3] = {a.x, a.y, a.z}, B[3] = {b.x, b.y, b.z};
    point<T> s = a + b, d = a - b, t = a, u = a;
    t += b;
    u -= b;
    const T S[3] = {s.x, s.y, s.z}, D[3] = {d.x, d.y, d.z}, T_[3] = {t.x, t.y, t.z}, U[3] = {u.x, u.y, u.z};
    uint64_t bad = 0, in = 0;
    for (int k = 0; k < 3; ++k)
    {
        const T sum = (T) (A[k] + B[k]), dif = (T) (A[k] - B[k]);
        bad |= vs_ne (raw (S[k]), raw (sum)) | vs_ne (raw (T_[k]), raw (sum));
        in |= vs_ne (raw (D[k]), raw (dif)) | vs_ne (raw (U[k]), raw (dif));
    }
    vs_check (bad == 0, "addition works on every coordinate");
    vs_check (in == 0, "subtraction works on every coordinate");
    vs_check ((vs_ne (raw (a.x), raw (A[0])) | vs_ne (raw (a.y), raw (A[1])) | vs_ne (raw (a.z), raw (A[2]))
        | vs_ne (raw (b.x), raw (B[0])) | vs_ne (raw (b.y), raw (B[1])) | vs_ne (raw (b.z), raw (B[2]))) == 0, "operands stay as they are");
}
extern "C" void arithmetic ()
{
    if (vs_choose ("type", 0, 1))
    {
        point<uint64_t> p[2];
        for (auto &q : p) { q.x = vs_u64 ("x"); q.y = vs_u64 ("y"); q.z = vs_u64 ("z"); }
        check_arithmetic (p[0], p[1]);
    }
    else
    {
        pd p[2];
        for (auto &q : p) { q.x = vs_double ("x"); q.y = vs_double ("y"); q.z = vs_double ("z"); }
        // which of two NaNs a sum keeps is not specified
        for (auto &q : p) vs_assume ((q.x == q.x) & (q.y == q.y) & (q.z == q.z));
        vs_assume ((p[0].x - p[1].x == p[0].x - p[1].x) & (p[0].y - p[1].y == p[0].y - p[1].y) & (p[0].z - p[1].z == p[0].z - p[1].z));
        vs_assume ((p[0].x + p[1].x == p[0].x + p[1].x) & (p[0].y + p[1].y == p[0].y + p[1].y) & (p[0].z + p[1].z == p[0].z + p[1].z));
        check_arithmetic (p[0], p[1]);
    }
    vs_reach ("end");
}
static void to_point (pd &p, const grid_point &g, double scale) { p.x = (double) g.v[0] * scale; p.y = (double) g.v[1] * scale; p.z = (double) g.v[2] * scale; }
// values are about equal when their difference rounds to zero at the given number of decimals
extern "C" void about_equals ()
{
    using spoc::point::about_equal;
    static const struct { unsigned precision; int shift; uint64_t power; } CASE[] = {{0, 1, 1}, {1, 6, 10}, {3, 12, 1000}, {9, 31, 1000000000}, {0, 30, 1}, {2, 30, 100}};
    const size_t at_case = vs_choose ("case", 0, 5);
    const auto &c = CASE[at_case];
    const bool lists = at_case == 1;
    const double scale = 1.0 / (double) (1ull << c.shift);
    const int bits = 4;
    // near the origin, far from it, or with a difference near the limit that needs more digits than a float has
    const int64_t base = c.shift < 13 && vs_choose ("far", 0, 1) ? (int64_t) 1 << (20 + c.shift) : 0;
    const int64_t edge = c.shift == 30 ? (int64_t) ((1ull << 30) / (2 * c.power)) : 0;
    grid_point g[2];
    pd p[2];
    for (int k = 0; k < 2; ++k)
    {
        g[k] = any_grid (bits, bits, bits);
        for (auto &v : g[k].v) v += base + (k ? edge : 0);
        to_point (p[k], g[k], scale);
    }
    bool eq[3];
    for (int d = 0; d < 3; ++d)
    {
        const int64_t m = g[0].v[d] - g[1].v[d];
        eq[d] = 2 * (uint64_t) (m < 0 ? -m : m) * c.power < (1ull << c.shift);
    }
    vs_check (about_equal (p[0].x, p[1].x, c.precision) == eq[0], "values are compared to the given number of decimals");
    vs_check (about_equal (p[1].x, p[0].x, c.precision) == eq[0], "the comparison is symmetric");
    const bool all = eq[0] & eq[1] & eq[2];
    vs_check (about_equal (p[0], p[1], c.precision) == all, "points are about equal when all coordinates are");
    // lists, where one pair differs and the others are the same
    const size_t n = lists ? vs_choose ("n", 0, 3) : 1;
    std::vector<pd> a (n), b (n);
    const size_t at = n ? vs_choose ("at", 0, n - 1) : 0;
    if (n) { a[at] = p[0]; b[at] = p[1]; }
    vs_check (about_equal (a, b, c.precision) == (n == 0 || all), "lists are about equal when all points are");
    vs_reach ("end");
}
extern "C" void special_values ()
{
    using spoc::point::about_equal;
    double v = vs_double ("v");
    const unsigned precision = (unsigned) vs_choose ("precision", 0, 12);
    const double special = vs_choose ("special", 0, 1) ? NAN : vs_choose ("sign", 0, 1) ? -INFINITY : INFINITY;
    vs_assume (v - v == 0);
    vs_check (about_equal (v, v, precision), "a finite value is about equal to itself");
    vs_check (!about_equal (v, special, precision), "a finite value is not about equal to an infinite or undefined one");
    vs_check (!about_equal (special, v, precision), "a finite value is not about equal to an infinite or undefined one");
    vs_reach ("end");
}
// exact where squares and sums are exact
template<typename T> static void check_distance (int64_t base, size_t wide)
{
    T p[2];
    grid_point g[2];
    for (int k = 0; k < 2; ++k)
    {
        g[k] = any_grid (6, 6, 6);
        for (auto &v : g[k].v) v += base;
        if (k && wide < 3) g[k].v[wide] += (int64_t) 1 << 24;
        p[k].x = (double) g[k].v[0] * 0.125; p[k].y = (double) g[k].v[1] * 0.125; p[k].z = (double) g[k].v[2] * 0.125;
    }
    for (int k = 0; k < 2; ++k)
    {
        const double dx = (double) g[k].v[0] * 0.125 - (double) g[1 - k].v[0] * 0.125;
        const double dy = (double) g[k].v[1] * 0.125 - (double) g[1 - k].v[1] * 0.125;
        const double dz = (double) g[k].v[2] * 0.125 - (double) g[1 - k].v[2] * 0.125;
        const double d2 = dx * dx + dy * dy + dz * dz;
        const double got = spoc::point::distance (p[k], p[1 - k]), want = std::sqrt (d2);
        vs_check (vs_ne (vs_bits (got), vs_bits (want)) == 0, "the distance is euclidean");
    }
    const double there = spoc::point::distance (p[0], p[1]), back = spoc::point::distance (p[1], p[0]);
    if (wide == 3) vs_check (vs_ne (vs_bits (there), vs_bits (back)) == 0, "the distance is symmetric");
}
extern "C" void distances ()
{
    const int64_t base = vs_choose ("far", 0, 1) ? (int64_t) 1 << 30 : 0;
    // one difference may need more digits than a float has
    const size_t wide = vs_choose ("wide", 0, 3);
    if (vs_choose ("type", 0, 1)) check_distance<point_record> (base, wide); else check_distance<pd> (base, wide);
    vs_reach ("end");
}
template<typename T> static void check_center (T in, size_t n, bool far)
{
    int64_t sum[3] = {0, 0, 0};
    for (size_t k = 0; k < n; ++k)
    {
        grid_point g = any_grid (6, 6, 6);
        for (auto &v : g.v) v += far ? (int64_t) 1 << 30 : 0;
        in[k].x = (double) g.v[0] * 0.25; in[k].y = (double) g.v[1] * 0.25; in[k].z = (double) g.v[2] * 0.25;
        for (int d = 0; d < 3; ++d) sum[d] += g.v[d];
    }
    auto c = spoc::utils::get_center (in);
    vs_check ((vs_ne (vs_bits (c.x), vs_bits ((double) sum[0] * (0.25 / n))) | vs_ne (vs_bits (c.y), vs_bits ((double) sum[1] * (0.25 / n)))
        | vs_ne (vs_bits (c.z), vs_bits ((double) sum[2] * (0.25 / n)))) == 0, "the center is the mean of every coordinate");
}
extern "C" void centers ()
{
    static const size_t counts[] = {1, 2, 4, 8};
    const size_t n = counts[vs_choose ("n", 0, 2 + vs_tier ())];
    const bool far = vs_choose ("far", 0, 1) != 0;
    if (vs_choose ("type", 0, 1)) check_center (any_points (n, 1), n, far); else check_center (std::vector<pd> (n), n, far);
    vs_reach ("end");
}
// columns and their emptiness
extern "C" void columns ()
{
    const size_t n = vs_choose ("n", 0, 3 + vs_tier ()), ne = vs_choose ("ne", 0, 2);
    const point_records in = any_points (n, ne);
    const auto x = spoc::point_record::get_x (in), y = spoc::point_record::get_y (in), z = spoc::point_record::get_z (in);
    const auto c = spoc::point_record::get_c (in), p = spoc::point_record::get_p (in);
    const auto i = spoc::point_record::get_i (in), r = spoc::point_record::get_r (in), g = spoc::point_record::get_g (in), b = spoc::point_record::get_b (in);
    bool sizes = (x.size () == n) & (y.size () == n) & (z.size () == n) & (c.size () == n) & (p.size () == n) & (i.size () == n) & (r.size () == n) & (g.size () == n) & (b.size () == n);
    vs_check (sizes, "a column has one value per point");
    vs_check (spoc::point_record::get_extra_fields_size (in) == (n ? ne : 0), "the number of extra fields");
    uint64_t bad = 0, any[6] = {};
    for (size_t k = 0; k < n; ++k)
    {
        bad |= vs_ne (vs_bits (x[k]), vs_bits (in[k].x)) | vs_ne (vs_bits (y[k]), vs_bits (in[k].y)) | vs_ne (vs_bits (z[k]), vs_bits (in[k].z));
        bad |= vs_ne (c[k], in[k].c) | vs_ne (p[k], in[k].p) | vs_ne (i[k], in[k].i) | vs_ne (r[k], in[k].r) | vs_ne (g[k], in[k].g) | vs_ne (b[k], in[k].b);
        any[0] |= in[k].c; any[1] |= in[k].p; any[2] |= in[k].i; any[3] |= in[k].r; any[4] |= in[k].g; any[5] |= in[k].b;
    }
    vs_check (bad == 0, "a column has the values of the points in order");
    for (size_t e = 0; e < ne; ++e)
    {
        const auto v = spoc::point_record::get_extra (e, in);
        vs_check (v.size () == n, "a column has one value per point");
        uint64_t some = 0, wrong = 0;
        for (size_t k = 0; k < n; ++k) { wrong |= vs_ne (v[k], in[k].extra[e]); some |= in[k].extra[e]; }
        vs_check (wrong == 0, "a column has the values of the points in order");
        vs_check (spoc::point_record::has_all_zero_extra (e, in) == (some == 0), "a column is empty when all its values are zero");
    }
    using namespace spoc::point_record;
    switch (vs_choose ("column", 0, 6))
    {
        case 0: vs_check (has_all_zero_c (in) == (any[0] == 0), "the class column is empty when all its values are zero"); break;
        case 1: vs_check (has_all_zero_p (in) == (any[1] == 0), "the id column is empty when all its values are zero"); break;
        case 2: vs_check (has_all_zero_i (in) == (any[2] == 0), "the intensity column is empty when all its values are zero"); break;
        case 3: vs_check (has_all_zero_r (in) == (any[3] == 0), "the red column is empty when all its values are zero"); break;
        case 4: vs_check (has_all_zero_g (in) == (any[4] == 0), "the green column is empty when all its values are zero"); break;
        case 5: vs_check (has_all_zero_b (in) == (any[5] == 0), "the blue column is empty when all its values are zero"); break;
        default: vs_check (has_all_zero_rgb (in) == ((any[3] | any[4] | any[5]) == 0), "the colors are empty when all their values are zero"); break;
    }
    vs_reach ("end");
}
// printing: all values, in the order of the fields, separated by white space
static void blank (const std::string &s, size_t &pos)
{
    const size_t at = pos;
    while (pos < s.size () && (s[pos] == ' ' || s[pos] == '\t')) ++pos;
    vs_check (pos > at, "values are separated");
}
static void coordinate (const std::string &s, size_t &pos, double want, int precision)
{
    blank (s, pos);
    std::ostringstream o;
    o << std::setprecision (precision) << want;
    size_t q = 0;
    double v = 0, w = 0;
    vs_check (vs_get_double (o.str (), q, w) && vs_get_double (s, pos, v), "a coordinate is printed");
    vs_check (vs_ne (vs_bits (v), vs_bits (w)) == 0, "the coordinate is the point's");
}
static void number (const std::string &s, size_t &pos, uint64_t want)
{
    blank (s, pos);
    uint64_t v = 0, minus = 0;
    vs_check (vs_get_int (s, pos, v, &minus), "a value is printed");
    vs_check ((vs_ne (v, want) | minus) == 0, "the value is the point's");
}
extern "C" void printing ()
{
    const size_t ne = vs_choose ("ne", 0, 3);
    const int precision = (int) vs_choose ("precision", 0, 1) ? 17 : 6;
    const point_record r = any_points (1, ne)[0];
    {
        std::ostringstream o;
        o << std::setprecision (precision) << r;
        const std::string s = o.str ();
        size_t pos = 0;
        coordinate (s, pos, r.x, precision); coordinate (s, pos, r.y, precision); coordinate (s, pos, r.z, precision);
        number (s, pos, r.c); number (s, pos, r.p); number (s, pos, r.i); number (s, pos, r.r); number (s, pos, r.g); number (s, pos, r.b);
        for (auto e : r.extra) number (s, pos, e);
        vs_check (pos == s.size (), "nothing follows the values");
    }
    {
        pd p; p.x = r.x; p.y = r.y; p.z = r.z;
        std::ostringstream o;
        o << std::setprecision (precision) << p;
        const std::string s = o.str ();
        size_t pos = 0;
        coordinate (s, pos, r.x, precision); coordinate (s, pos, r.y, precision); coordinate (s, pos, r.z, precision);
        vs_check (pos == s.size (), "nothing follows the values");
    }
    vs_reach ("end");
}
