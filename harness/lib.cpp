// Library functions on points: equality, order, hashes, extents, voxels, neighbours, encodings.
#include "gen.h"
#include "grid.h"
#include "spoc/radius_search.h"
#include "spoc/utils.h"
using spoc::point::point;
typedef point<double> pd;
static bool nan_free (double a) { return a == a; }
static pd any_pd () { pd p; p.x = vs_double ("x"); p.y = vs_double ("y"); p.z = vs_double ("z"); return p; }
static bool nan_free (const pd &p) { return nan_free (p.x) & nan_free (p.y) & nan_free (p.z); }
// C08: points
template<typename T> static void check_order (const T *p)
{
    bool eq[3][3], lt[3][3];
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < 3; ++b)
        {
            eq[a][b] = (p[a].x == p[b].x) & (p[a].y == p[b].y) & (p[a].z == p[b].z);
            lt[a][b] = (p[a].x < p[b].x) | ((p[a].x == p[b].x) & ((p[a].y < p[b].y) | ((p[a].y == p[b].y) & (p[a].z < p[b].z))));
        }
    for (int a = 0; a < 2; ++a)
        for (int b = 0; b < 2; ++b)
        {
            bool e = p[a] == p[b], n = p[a] != p[b], l = p[a] < p[b];
            vs_check (e == eq[a][b], "points are equal when all coordinates are");
            vs_check (n != e, "inequality is the opposite of equality");
            vs_check (l == lt[a][b], "points are ordered by x, then y, then z");
            bool m = p[b] < p[a];
            vs_check (!(l && m), "the order is asymmetric");
            vs_check ((!l && !m) == e, "points that are not ordered are equal");
        }
    bool l01 = p[0] < p[1], l12 = p[1] < p[2], l02 = p[0] < p[2];
    vs_check (!(l01 && l12) || l02, "the order is transitive");
    bool e01 = p[0] == p[1], e12 = p[1] == p[2], e02 = p[0] == p[2];
    vs_check (!(e01 && e12) || e02, "equality is transitive");
}
extern "C" void point_order ()
{
    if (vs_choose ("type", 0, 1))
    {
        point<int32_t> p[3];
        for (auto &q : p) { q.x = (int32_t) vs_u32 ("x"); q.y = (int32_t) vs_u32 ("y"); q.z = (int32_t) vs_u32 ("z"); }
        check_order (p);
    }
    else
    {
        pd p[3];
        for (auto &q : p) { q = any_pd (); vs_assume (nan_free (q)); }
        check_order (p);
    }
    vs_reach ("end");
}
static spoc::voxel::voxel_index any_voxel ()
{
    uint64_t i = vs_u64 ("i");
    uint64_t j = vs_u64 ("j");
    uint64_t k = vs_u64 ("k");
    return spoc::voxel::voxel_index (i, j, k);
}
extern "C" void hashes ()
{
    int what = (int) vs_choose ("what", 0, 4);
    if (what == 0)
    {
        pd a = any_pd (), b = any_pd ();
        vs_assume ((a.x == b.x) & (a.y == b.y) & (a.z == b.z));
        spoc::point::point_hash<double> h;
        vs_check (h (a) == h (b), "equal points have equal hashes");
    }
    else if (what == 1)
    {
        spoc::voxel::voxel_index a = any_voxel (), b = any_voxel ();
        vs_check ((a == b) == ((a.i == b.i) & (a.j == b.j) & (a.k == b.k)), "voxel indexes are equal when all components are");
        spoc::voxel::voxel_index_hash h;
        vs_check (!((a.i == b.i) & (a.j == b.j) & (a.k == b.k)) | (h (a) == h (b)), "equal voxel indexes have equal hashes");
    }
    else if (what == 2)
    {
        size_t ne = vs_choose ("ne", 0, 2);
        point_record a = any_point (ne), b = a;
        b.x = vs_double ("x"); b.y = vs_double ("y"); b.z = vs_double ("z");
        vs_assume ((a.x == b.x) & (a.y == b.y) & (a.z == b.z));
        vs_check (a == b, "records with equal members are equal");
        spoc::point_record::point_record_hash h;
        vs_check (h (a) == h (b), "equal records have equal hashes");
    }
    else if (what == 3)
    {
        size_t n1 = vs_choose ("n1", 0, 2), n2 = vs_choose ("n2", 0, 2);
        point_record a = any_point (n1), b = any_point (n2);
        bool same = (a.x == b.x) & (a.y == b.y) & (a.z == b.z) & (a.c == b.c) & (a.p == b.p) & (a.i == b.i) & (a.r == b.r) & (a.g == b.g) & (a.b == b.b) & (n1 == n2);
        for (size_t k = 0; k < n1 && k < n2; ++k) same &= a.extra[k] == b.extra[k];
        vs_check ((a == b) == same, "records are equal when all members are");
        vs_check ((a != b) == !same, "inequality is the opposite of equality");
    }
    else
    {
        spoc::header::header a, b;
        size_t w1 = vs_choose ("w1", 0, 1), w2 = vs_choose ("w2", 0, 1);
        bool same = w1 == w2;
        for (auto *h : {&a, &b})
        {
            h->wkt = any_string ("w", h == &a ? w1 : w2);
            h->extra_fields = vs_u8 ("ne"); h->total_points = vs_u64 ("n"); h->compressed = vs_u8 ("comp") & 1;
            h->major_version = vs_u8 ("ver"); h->minor_version = vs_u8 ("ver");
        }
        same &= (a.extra_fields == b.extra_fields) & (a.total_points == b.total_points) & (a.compressed == b.compressed) & (a.major_version == b.major_version) & (a.minor_version == b.minor_version);
        if (w1 && w2) same &= a.wkt[0] == b.wkt[0];
        vs_check ((a == b) == same, "headers are equal when all members are");
        vs_check ((a != b) == !same, "inequality is the opposite of equality");
    }
    vs_reach ("end");
}
// C22: extents and cropping
static bool zero_ok (double v, double w) { return (v == w); }
extern "C" void extents ()
{
    const size_t n = vs_choose ("n", 1, 3 + vs_tier ());
    point_records p = any_points (n, 0);
    for (auto &q : p) vs_assume (nan_free (q.x) & nan_free (q.y) & nan_free (q.z) & (q.x - q.x == 0) & (q.y - q.y == 0) & (q.z - q.z == 0));
    auto e = spoc::extent::get_extent (p);
    bool bx = true, by = true, bz = true, tx = false, ty = false, tz = false, ux = false, uy = false, uz = false;
    for (auto &q : p)
    {
        bx &= (e.minp.x <= q.x) & (q.x <= e.maxp.x); tx |= q.x == e.minp.x; ux |= q.x == e.maxp.x;
        by &= (e.minp.y <= q.y) & (q.y <= e.maxp.y); ty |= q.y == e.minp.y; uy |= q.y == e.maxp.y;
        bz &= (e.minp.z <= q.z) & (q.z <= e.maxp.z); tz |= q.z == e.minp.z; uz |= q.z == e.maxp.z;
    }
    vs_check (bx, "x of every point is within the extent"); vs_check (by, "y of every point is within the extent"); vs_check (bz, "z of every point is within the extent");
    vs_check (tx & ux, "the extent is tight in x"); vs_check (ty & uy, "the extent is tight in y"); vs_check (tz & uz, "the extent is tight in z");
    vs_reach ("end");
}
extern "C" void total_extent ()
{
    spoc::extent::extent a {any_pd (), any_pd ()}, b {any_pd (), any_pd ()};
    for (auto *e : {&a, &b}) vs_assume (nan_free (e->minp) & nan_free (e->maxp));
    auto t = spoc::extent::get_total_extent (a, b);
    for (int d = 0; d < 3; ++d)
    {
        auto c = [d] (const pd &p) { return d == 0 ? p.x : d == 1 ? p.y : p.z; };
        vs_check ((c (t.minp) <= c (a.minp)) & (c (t.minp) <= c (b.minp)) & ((c (t.minp) == c (a.minp)) | (c (t.minp) == c (b.minp))), "the total extent starts at the smaller minimum");
        vs_check ((c (t.maxp) >= c (a.maxp)) & (c (t.maxp) >= c (b.maxp)) & ((c (t.maxp) == c (a.maxp)) | (c (t.maxp) == c (b.maxp))), "the total extent ends at the larger maximum");
    }
    vs_check (spoc::extent::all_less_equal (a.minp, a.maxp) == ((a.minp.x <= a.maxp.x) & (a.minp.y <= a.maxp.y) & (a.minp.z <= a.maxp.z)), "points are compared in all dimensions");
    bool same = (a.minp.x == b.minp.x) & (a.minp.y == b.minp.y) & (a.minp.z == b.minp.z) & (a.maxp.x == b.maxp.x) & (a.maxp.y == b.maxp.y) & (a.maxp.z == b.maxp.z);
    vs_check ((a == b) == same, "extents are equal when both corners are");
    vs_check (vs_ne (vs_bits (spoc::extent::get_area (a)), vs_bits ((a.maxp.x - a.minp.x) * (a.maxp.y - a.minp.y))) == 0 || !(a.minp.x - a.minp.x == 0), "area");
    vs_reach ("end");
}
extern "C" void crops ()
{
    const size_t n = vs_choose ("n", 0, 2 + vs_tier ());
    point_records p = any_points (n, 1);
    for (auto &q : p) vs_assume (nan_free (q.x) & nan_free (q.y) & nan_free (q.z));
    spoc::extent::extent e {any_pd (), any_pd ()};
    vs_assume (nan_free (e.minp) & nan_free (e.maxp));
    point_records want;
    for (auto &q : p)
    {
        bool in = (q.x >= e.minp.x) & (q.y >= e.minp.y) & (q.z >= e.minp.z) & (q.x <= e.maxp.x) & (q.y <= e.maxp.y) & (q.z <= e.maxp.z);
        if (in) want.push_back (q);
    }
    auto got = spoc::utils::crop (p, e);
    vs_check (got.size () == want.size () && diff (got, want) == 0, "cropping keeps exactly the points in the extent, in order");
    vs_reach (got.empty () ? "none" : got.size () == n ? "all" : "some");
}
// C24: encodings
extern "C" void encodings ()
{
    size_t n = vs_choose ("n", 0, 3);
    std::vector<pd> v;
    for (size_t k = 0; k < n; ++k) v.push_back (any_pd ());
    auto bytes = spoc::point::encode_points (v);
    vs_check (bytes.size () == n * 24, "24 bytes per point");
    auto same = [] (const pd &a, const pd &b) { return vs_ne (vs_bits (a.x), vs_bits (b.x)) | vs_ne (vs_bits (a.y), vs_bits (b.y)) | vs_ne (vs_bits (a.z), vs_bits (b.z)); };
    auto w = spoc::point::decode_points<double> (bytes);
    vs_check (w.size () == n, "as many points are decoded");
    for (size_t k = 0; k < n && k < w.size (); ++k) vs_check (same (v[k], w[k]) == 0, "decoded points are the encoded points");
    if (n)
    {
        auto b = spoc::point::encode_point (v[0]);
        vs_check (b.size () == 24, "24 bytes per point");
        vs_check (same (spoc::point::decode_point (b), v[0]) == 0, "a decoded point is the encoded point");
        for (size_t k = 0; k < 8 && k < b.size (); ++k) vs_check (vs_ne (b[k], (uint8_t) (vs_bits (v[0].x) >> 8 * k)) == 0, "bytes are little endian, x first");
    }
    if (n >= 2)
    {
        spoc::extent::extent e {v[0], v[1]};
        auto x = spoc::extent::decode_extent (spoc::extent::encode_extent (e));
        vs_check ((same (x.minp, v[0]) | same (x.maxp, v[1])) == 0, "a decoded extent is the encoded extent");
    }
    std::vector<point<uint64_t>> u;
    for (size_t k = 0; k < n; ++k) { point<uint64_t> p; p.x = vs_u64 ("u"); p.y = vs_u64 ("u"); p.z = vs_u64 ("u"); u.push_back (p); }
    auto t = spoc::point::decode_points<uint64_t> (spoc::point::encode_points (u));
    vs_check (t.size () == n, "as many points are decoded");
    for (size_t k = 0; k < n && k < t.size (); ++k) vs_check ((vs_ne (t[k].x, u[k].x) | vs_ne (t[k].y, u[k].y) | vs_ne (t[k].z, u[k].z)) == 0, "decoded points are the encoded points");
    vs_reach ("end");
}
// many points: more than a 16-bit number can count
extern "C" void encodings_many ()
{
    const size_t n = 65536 + 9;
    std::vector<pd> v (n);
    const size_t at[] = {0, 7, 65535, 65536, n - 1};
    for (auto k : at) v[k] = any_pd ();
    auto bytes = spoc::point::encode_points (v);
    vs_check (bytes.size () == n * 24, "24 bytes per point");
    auto w = spoc::point::decode_points<double> (bytes);
    vs_check (w.size () == n, "as many points are decoded");
    if (w.size () != n) vs_stop ();
    uint64_t bad = 0;
    for (size_t k = 0; k < n; ++k) bad |= vs_ne (vs_bits (v[k].x), vs_bits (w[k].x)) | vs_ne (vs_bits (v[k].y), vs_bits (w[k].y)) | vs_ne (vs_bits (v[k].z), vs_bits (w[k].z));
    vs_check (bad == 0, "decoded points are the encoded points");
    vs_reach ("end");
}
// C20: voxels. Coordinates and resolutions in units of 1/2
static point_records grid_points (size_t n, std::vector<grid_point> &g, int bits, double scale)
{
    point_records in = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) { g.push_back (any_grid (bits, bits, bits)); place (in[k], g[k], scale); }
    return in;
}
static uint64_t cell (int64_t v, int64_t lo, int64_t size) { return ((uint64_t) (v - lo) & 0x7f) / (uint64_t) size; }
extern "C" void voxels ()
{
    const size_t n = vs_tier () ? 3 : 2;
    std::vector<grid_point> g;
    point_records p = grid_points (n, g, 4, 0.5);
    size_t ri = vs_choose ("res", 0, 3);
    const int size[] = {1, 2, 3, 6};
    int how = (int) vs_choose ("how", 0, 2);
    int64_t mn[3];
    for (int d = 0; d < 3; ++d) { mn[d] = g[0].v[d]; for (size_t k = 1; k < n; ++k) mn[d] = imin (mn[d], g[k].v[d]); }
    const double res = size[ri] * 0.5;
    std::vector<size_t> idx;
    for (size_t k = 0; k < n; ++k) idx.push_back (n - 1 - k);
    std::vector<spoc::voxel::voxel_index> v;
    if (how == 0) v = spoc::voxel::get_voxel_indexes (p, res);
    else if (how == 1)
    {
        spoc::extent::extent e;
        for (int d = 0; d < 3; ++d) mn[d] -= 2;
        e.minp.x = mn[0] * 0.5; e.minp.y = mn[1] * 0.5; e.minp.z = mn[2] * 0.5;
        v = spoc::voxel::get_voxel_indexes (p, e, res);
    }
    else v = spoc::voxel::get_voxel_indexes (p, idx, res);
    vs_check (v.size () == n, "one voxel per point");
    for (size_t k = 0; k < n; ++k)
    {
        const size_t q = how == 2 ? idx[k] : k;
        vs_check (v[k].i == cell (g[q].v[0], mn[0], size[ri]), "the voxel in x");
        vs_check (v[k].j == cell (g[q].v[1], mn[1], size[ri]), "the voxel in y");
        vs_check (v[k].k == cell (g[q].v[2], mn[2], size[ri]), "the voxel in z");
    }
    vs_reach ("end");
}
// coordinates of any size that a double has exactly
extern "C" void voxels_wide ()
{
    point_records p (2);
    uint64_t g[3];
    for (int d = 0; d < 3; ++d) g[d] = vs_sym ("g", 48);
    p[1].x = (double) g[0]; p[1].y = (double) g[1]; p[1].z = (double) g[2];
    size_t ri = vs_choose ("res", 0, 2);
    const double res[] = {1, 4, 0.125};
    auto v = spoc::voxel::get_voxel_indexes (p, res[ri]);
    vs_check (v.size () == 2, "one voxel per point");
    auto want = [&] (uint64_t x) { return ri == 0 ? x : ri == 1 ? x / 4 : x * 8; };
    vs_check (v[0].i == 0 && v[0].j == 0 && v[0].k == 0, "the first voxel");
    vs_check (v[1].i == want (g[0]), "the voxel in x");
    vs_check (v[1].j == want (g[1]), "the voxel in y");
    vs_check (v[1].k == want (g[2]), "the voxel in z");
    vs_reach ("end");
}
extern "C" void voxel_maps ()
{
    const size_t n = vs_tier () ? 4 : 3;
    std::vector<spoc::voxel::voxel_index> v;
    for (size_t k = 0; k < n; ++k) v.push_back (any_voxel ());
    auto m = spoc::voxel::get_voxel_index_map (v);
    auto s = spoc::voxel::get_voxel_index_set (v);
    size_t seen = 0;
    for (auto &e : m)
    {
        vs_check (s.count (e.first) == 1, "the set has the voxels of the map");
        size_t last = 0; bool first = true;
        for (auto k : e.second)
        {
            vs_check (k < n && v[k] == e.first, "a point is listed under its voxel");
            vs_check (first || k > last, "points are listed once and in order");
            first = false; last = k; ++seen;
        }
        vs_check (!first, "a voxel in the map has a point");
    }
    vs_check (seen == n, "every point is listed");
    vs_check (m.size () == s.size (), "the set and the map have the same voxels");
    for (size_t k = 0; k < n; ++k) vs_check (m.find (v[k]) != m.end () && s.find (v[k]) != s.end (), "the voxel of every point is found");
    vs_reach (m.size () == 1 ? "one" : m.size () == n ? "all" : "some");
}
// C21: neighbours within a radius. The first point is at the corner of the cloud, wherever that is.
extern "C" void neighbors ()
{
    const size_t n = vs_tier () ? 4 : 3;
    std::vector<grid_point> g;
    point_records p = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) { if (k) g.push_back (any_grid (3, 2, 0)); else g.push_back (grid_point {{-4, -2, 0}}); place (p[k], g[k], 0.5); p[k].z = 7; }
    const int r = (int) pick ("r", {1, 2, 3});
    int how = (int) vs_choose ("how", 0, 3);
    std::vector<size_t> who, among;
    std::vector<std::vector<size_t>> got (n);
    std::vector<int> called (n);
    auto op = [&] (size_t i, const std::vector<size_t> &v) { got[i] = v; ++called[i]; };
    for (size_t k = 0; k < n; ++k) { who.push_back (k); among.push_back (k); }
    if (how == 0) got = spoc::radius_search::radius_search_get_neighbors (p, r * 0.5);
    else if (how == 1) { who = {1}; spoc::radius_search::radius_search_all_neighbors (p, who, r * 0.5, op, 32); }
    else if (how == 2) { who = {2, 0}; among = who; spoc::radius_search::radius_search_indexes (p, who, r * 0.5, op); }
    else { who = {0, 1}; among = {1, 2}; spoc::radius_search::radius_search (p, who, among, r * 0.5, op); }
    for (size_t a = 0; a < n; ++a)
    {
        if (a >= who.size ()) { vs_check (got[a].empty () && called[a] == 0, "only the given points are searched"); continue; }
        if (how) vs_check (called[a] == 1, "every given point is searched once");
        std::vector<int> times (n);
        for (auto j : got[a]) { vs_check (j < among.size (), "neighbours are given by their index"); if (j < n) ++times[j]; }
        for (size_t b = 0; b < among.size (); ++b)
        {
            int64_t dx = g[who[a]].v[0] - g[among[b]].v[0], dy = g[who[a]].v[1] - g[among[b]].v[1];
            bool near = dx * dx + dy * dy <= r * r;
            vs_check (times[b] <= 1, "a neighbour is given once");
            vs_check ((times[b] == 1) == near, "exactly the points within the radius are neighbours");
        }
    }
    vs_reach ("end");
}
// at most the requested number of neighbours, all of them within the radius
extern "C" void neighbors_limit ()
{
    const size_t n = 4;
    std::vector<grid_point> g;
    point_records p = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) { if (k) g.push_back (any_grid (2 + vs_tier (), 0, 0)); else g.push_back (grid_point {{-2 - 2 * vs_tier (), 0, 0}}); place (p[k], g[k], 0.5); p[k].y = p[k].z = -1; }
    const size_t limit = vs_choose ("limit", 0, 3);
    const int r = 2;
    std::vector<std::vector<size_t>> got (n);
    spoc::radius_search::radius_search_all (p, r * 0.5, [&] (size_t i, const std::vector<size_t> &v) { got[i] = v; }, limit);
    for (size_t a = 0; a < n; ++a)
    {
        size_t near = 0;
        std::vector<int> times (n);
        for (auto j : got[a]) { vs_check (j < n, "neighbours are given by their index"); if (j < n) ++times[j]; }
        uint64_t count = 0;
        for (size_t b = 0; b < n; ++b)
        {
            int64_t dx = g[a].v[0] - g[b].v[0];
            bool in = dx * dx <= r * r;
            count += in;
            vs_check (times[b] <= 1, "a neighbour is given once");
            vs_check (times[b] == 0 || in, "neighbours are within the radius");
        }
        (void) near;
        vs_check (got[a].size () == (count < limit ? count : limit), "as many neighbours as there are, up to the limit");
    }
    vs_reach ("end");
}
// C23: coordinates as integers relative to an extent, and back. Coordinates are multiples of a step.
struct axis { double lo, step; int steps; };
static const axis AXES[] = {{0, 1, 0}, {-5.25, 0.5, 64}, {1e6, 0.125, 1}, {0, 1, 7}, {-3, 0.25, 13}, {500000.25, 0.5, 5}, {-1, 1024, 3}, {7, 1, 0}};
static const int NA = sizeof AXES / sizeof *AXES;
extern "C" void rescaling ()
{
    using spoc::point::point;
    const int a = (int) vs_choose ("axis", 0, NA - 1);
    // every axis takes every role
    const axis ax[3] = {AXES[a], AXES[(a + 1) % NA], AXES[(a + 3) % NA]};
    spoc::extent::extent e;
    e.minp = {ax[0].lo, ax[1].lo, ax[2].lo};
    e.maxp = {ax[0].lo + ax[0].steps * ax[0].step, ax[1].lo + ax[1].steps * ax[1].step, ax[2].lo + ax[2].steps * ax[2].step};
    const int probe = (int) vs_choose ("probe", 0, 2);
    uint64_t k[2][3];
    std::vector<point<double>> p (4);
    p[2] = e.minp; p[3] = e.maxp;
    for (int j = 0; j < 2; ++j)
    {
        double c[3];
        for (int d = 0; d < 3; ++d)
        {
            k[j][d] = 0;
            if (d == probe && ax[d].steps) { k[j][d] = vs_sym ("k", 7); vs_assume (k[j][d] <= (uint64_t) ax[d].steps); if (ax[d].steps & (ax[d].steps - 1)) k[j][d] = vs_concretize (k[j][d]); }
            c[d] = ax[d].lo + (double) k[j][d] * ax[d].step;
        }
        p[j] = {c[0], c[1], c[2]};
    }
    const auto q = spoc::extent::rescale (p, e);
    const auto r = spoc::extent::restore (q, e);
    vs_check (q.size () == 4 && r.size () == 4, "one result per point");
    auto at = [] (const point<uint64_t> &v, int d) { return d == 0 ? v.x : d == 1 ? v.y : v.z; };
    auto in = [] (const point<double> &v, int d) { return d == 0 ? v.x : d == 1 ? v.y : v.z; };
    const uint64_t top = 1ull << 62;
    for (int d = 0; d < 3; ++d)
    {
        vs_check (at (q[2], d) == 0 && at (q[3], d) == (ax[d].steps ? top : 0), "the corners are the ends of the range");
        vs_check (in (r[2], d) == in (e.minp, d) && in (r[3], d) == in (e.maxp, d), "the corners are restored");
        const bool exact = (ax[d].steps & (ax[d].steps - 1)) == 0;
        for (int j = 0; j < 2; ++j)
        {
            const uint64_t want = ax[d].steps ? k[j][d] * (top / (uint64_t) ax[d].steps) : 0, got = at (q[j], d);
            const uint64_t slack = exact ? 0 : 1 << 13;
            vs_check ((got <= want + slack) & (want <= got + slack), "the position relative to the extent");
            const double diff = in (r[j], d) - in (p[j], d);
            const double s = ax[d].steps * ax[d].step, m = std::max (std::abs (in (e.minp, d)), std::abs (in (e.maxp, d)));
            const double tol = exact ? 0 : s * 0x1p-50 + m * 0x1p-52;
            vs_check ((diff <= tol) & (diff >= -tol), "the coordinate is restored");
        }
        vs_check ((k[0][d] > k[1][d]) | (at (q[0], d) <= at (q[1], d)), "the order is kept");
    }
    vs_reach ("end");
}
// more points than a 16-bit number can count
extern "C" void extents_many ()
{
    const size_t n = 65536 + 9, at = 65536 + vs_choose ("at", 0, 8);
    point_records p (n);
    for (size_t k = 0; k < n; ++k) { p[k].x = (double) (k & 7); p[k].y = (double) (k & 31); p[k].z = -1; }
    p[at] = any_point (0);
    const double x = p[at].x, y = p[at].y, z = p[at].z;
    vs_assume ((x - x == 0) & (y - y == 0) & (z - z == 0));
    auto e = spoc::extent::get_extent (p);
    vs_check ((e.minp.x == (x < 0 ? x : 0)) & (e.maxp.x == (x > 7 ? x : 7)), "the extent is tight in x");
    vs_check ((e.minp.y == (y < 0 ? y : 0)) & (e.maxp.y == (y > 31 ? y : 31)), "the extent is tight in y");
    vs_check ((e.minp.z == (z < -1 ? z : -1)) & (e.maxp.z == (z > -1 ? z : -1)), "the extent is tight in z");
    vs_reach ("end");
}
extern "C" void voxel_maps_many ()
{
    vs_buckets (true);
    const size_t n = 65536 + 9;
    std::vector<spoc::voxel::voxel_index> v (n);
    for (size_t k = 0; k < n; ++k) { v[k].i = k % 1000; v[k].j = k / 1000; v[k].k = 0; }
    const size_t twin = vs_choose ("twin", 0, 2);
    if (twin == 1) v[n - 1] = v[3]; else if (twin == 2) v[n - 1].i += (size_t) 1 << 32;
    auto m = spoc::voxel::get_voxel_index_map (v);
    auto s = spoc::voxel::get_voxel_index_set (v);
    const size_t want = n - (twin == 1);
    vs_check (m.size () == want && s.size () == want, "one entry for every voxel");
    size_t seen = 0;
    for (auto &e : m)
    {
        vs_check (s.count (e.first) == 1, "the set has the voxels of the map");
        for (auto k : e.second) { vs_check (k < n && v[k] == e.first, "a point is listed under its voxel"); ++seen; }
    }
    vs_check (seen == n, "every point is listed");
    vs_reach ("end");
}
