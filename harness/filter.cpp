#include "random.h"
#include "apps.h"
#include "grid.h"
#define main filter_main
#include "apps/filter/filter.cpp"
#undef main
static spoc_file result (const tool_result &t, const std::string &wkt, bool comp)
{
    vs_check (t.rc == 0, "the tool succeeds");
    spoc_file g = parse (t.out);
    vs_check (diff (g.get_wkt (), wkt) == 0, "the spatial reference is kept");
    vs_check (g.get_compressed () == comp, "the compression flag is kept");
    return g;
}
// the records of in[keep], in order
static void same_records (const spoc_file &g, const point_records &in, const std::vector<size_t> &keep)
{
    const point_records &out = g.get_point_records ();
    vs_check (out.size () == keep.size (), "exactly the wanted points are kept");
    uint64_t d = 0;
    for (size_t k = 0; k < keep.size (); ++k) d |= diff (out[k], in[keep[k]]);
    vs_check (d == 0, "kept points are unchanged and in order");
}
static std::string filter_input (const std::string &wkt, const point_records &in, bool comp)
{
    return comp ? compressed_bytes (wkt, in) : file_bytes (wkt, in);
}
static point_records filter_points (size_t n, size_t ne, bool comp)
{
    point_records in = any_points (n, ne);
    // columns of compressed files with content, which keeps the paths few
    if (comp) for (auto &p : in)
    {
        vs_assume (((vs_bits (p.x) & vs_bits (p.y) & vs_bits (p.z) & p.c & p.p & p.i & p.r & p.g & p.b) & 1) != 0);
        for (auto e : p.extra) vs_assume ((e & 1) != 0);
    }
    return in;
}
// C13: keep-class and remove-class
extern "C" void classes ()
{
    int keep = (int) vs_choose ("keep", 0, 2), rem = (int) vs_choose ("remove", 0, 2), mode = (int) vs_choose ("mode", 0, 1);
    if (!vs_tier () && keep + rem > 2) vs_stop ();
    bool comp = vs_choose ("comp", 0, 1) != 0;
    const size_t n = (keep + rem > 1 ? 2 : 3) + vs_tier () - (comp & (keep + rem > 1));
    point_records in = filter_points (n, 1, comp);
    std::vector<std::string> args;
    std::vector<uint32_t> ks, rs;
    for (int k = 0; k < keep; ++k) { ks.push_back (vs_u32 ("K")); vs_assume (ks.back () < 0x80000000u); }
    for (int k = 0; k < rem; ++k) { rs.push_back (vs_u32 ("R")); vs_assume (rs.back () < 0x80000000u); }
    for (auto k : ks) args.push_back ("--keep-class=" + text (k));
    for (auto r : rs) { args.push_back ("-r"); args.push_back (text (r)); }
    tool_result t = tool (filter_main, args, filter_input ("w", in, comp), mode);
    spoc_file g = result (t, "w", comp);
    std::vector<size_t> want;
    for (size_t k = 0; k < n; ++k)
    {
        bool a = ks.empty (), b = false;
        for (auto c : ks) a |= in[k].c == c;
        for (auto c : rs) b |= in[k].c == c;
        if (a & !b) want.push_back (k);
    }
    same_records (g, in, want);
    vs_reach (want.empty () ? "none" : want.size () == n ? "all" : "some");
}
// C14: unique locations, whatever order the generator produces
extern "C" void unique ()
{
    const size_t n = vs_tier () ? 4 : 3;
    bool seeded = vs_choose ("seeded", 0, 1) != 0;
    point_records in = any_points (n, 1);
    for (auto &p : in) vs_assume ((p.x == p.x) & (p.y == p.y) & (p.z == p.z));
    // locations that differ in y and z only, or in all coordinates
    int dims = (int) vs_choose ("dims", 1, 3);
    for (auto &p : in) { if (dims < 2) p.y = in[0].y; if (dims < 3) p.z = in[0].z; p.p = 0; }
    for (size_t k = 0; k < n; ++k) in[k].p = (uint32_t) k;
    int mode = (int) (dims & 1);
    std::vector<std::string> args {"-u"};
    if (seeded) args.push_back ("--random-seed=7");
    tool_result t = tool (filter_main, args, file_bytes ("w", in), mode);
    spoc_file g = result (t, "w", false);
    const point_records &out = g.get_point_records ();
    auto same = [] (const point_record &a, const point_record &b) { return (a.x == b.x) & (a.y == b.y) & (a.z == b.z); };
    std::vector<bool> used (n);
    bool distinct = true;
    for (size_t a = 0; a < out.size (); ++a)
    {
        vs_check (out[a].p < n && !used[out[a].p], "every output point is a different input point");
        used[out[a].p] = true;
        vs_check (seeded || a == 0 || out[a - 1].p < out[a].p, "without a seed the order is kept");
        vs_check (diff (out[a], in[out[a].p]) == 0, "kept points are unchanged");
        for (size_t b = 0; b < a; ++b) distinct &= !same (out[a], out[b]);
    }
    vs_check (distinct, "no two output points share a location");
    for (size_t k = 0; k < n; ++k)
    {
        bool found = false;
        for (auto &o : out) found |= same (o, in[k]);
        vs_check (found, "every location is kept");
        if (!seeded)
        {
            bool first = true;
            for (size_t j = 0; j < k; ++j) first &= !same (in[j], in[k]);
            vs_check (first == used[k], "without a seed the first occurrence is kept");
        }
    }
    vs_reach (out.size () == n ? "all" : out.size () == 1 ? "one" : "some");
}
// C15: one point of every occupied voxel
extern "C" void subsample ()
{
    const size_t n = vs_tier () ? 4 : 3;
    bool seeded = vs_choose ("seeded", 0, 1) != 0;
    static const int num[] = {4, 2, 12, 8, 1}; // voxel size in quarters
    size_t ri = vs_choose ("res", 0, vs_tier () ? 4 : 2);
    static const char *const rtext[] = {"1", "0.5", "3", "2", ".25"};
    point_records in = any_points (n, 1);
    std::vector<grid_point> g (n);
    int axis = (int) vs_choose ("axis", 0, 3); // one axis of wide range, or all of small range
    int64_t mn[3];
    for (size_t k = 0; k < n; ++k)
    {
        g[k] = axis == 0 ? any_grid (8, 0, 0) : axis == 1 ? any_grid (0, 8, 0) : axis == 2 ? any_grid (0, 0, 8) : any_grid (4, 4, 4);
        place (in[k], g[k], 0.25);
        in[k].p = (uint32_t) k;
        for (int d = 0; d < 3; ++d) mn[d] = k == 0 ? g[k].v[d] : imin (mn[d], g[k].v[d]);
    }
    int mode = (int) (ri & 1);
    std::vector<std::string> args {std::string ("--subsample=") + rtext[ri]};
    if (seeded) args.push_back ("-a3");
    tool_result t = tool (filter_main, args, file_bytes ("w", in), mode);
    spoc_file f = result (t, "w", false);
    const point_records &out = f.get_point_records ();
    auto vox = [&] (size_t k, int d) { return ((uint64_t) (g[k].v[d] - mn[d]) & 0xff) / (uint64_t) num[ri]; };
    auto same = [&] (size_t a, size_t b) { return (vox (a, 0) == vox (b, 0)) & (vox (a, 1) == vox (b, 1)) & (vox (a, 2) == vox (b, 2)); };
    std::vector<bool> used (n);
    uint64_t last = 0;
    for (auto &o : out)
    {
        vs_check (o.p < n && !used[o.p], "every output point is a different input point");
        used[o.p] = true;
        vs_check (seeded || last <= o.p, "without a seed the order is kept");
        last = o.p;
        vs_check (diff (o, in[o.p]) == 0, "kept points are unchanged");
    }
    for (size_t k = 0; k < n; ++k)
    {
        uint64_t count = 0;
        bool first = true;
        for (size_t j = 0; j < n; ++j) { if (used[j]) count += same (j, k); if (j < k) first &= !same (j, k); }
        vs_check (count == 1, "exactly one point of every occupied voxel is kept");
        if (!seeded) vs_check (first == used[k], "without a seed the first point of a voxel is kept");
    }
    vs_reach (out.size () == n ? "all" : out.size () == 1 ? "one" : "some");
}
// the library entry points, including sizes the tool cannot show
extern "C" void subsample_indexes ()
{
    size_t n = vs_choose ("n", 0, 3), seed = vs_choose ("seed", 0, 1);
    point_records in (n);
    std::vector<int64_t> g;
    int64_t mn = 0;
    for (size_t k = 0; k < n; ++k) { g.push_back (any_int ("g", 6)); in[k].y = (double) g[k]; mn = k ? imin (mn, g[k]) : g[k]; }
    std::vector<size_t> r = spoc::subsampling::get_subsample_indexes (in, 4.0, seed);
    std::vector<bool> used (n);
    for (auto k : r) { vs_check (k < n && !used[k], "indexes are valid and distinct"); used[k] = true; }
    for (size_t k = 0; k < n; ++k)
    {
        uint64_t c = 0;
        for (size_t j = 0; j < n; ++j) if (used[j]) c += ((uint64_t) (g[j] - mn) & 0x7f) / 4 == ((uint64_t) (g[k] - mn) & 0x7f) / 4;
        vs_check (c == 1, "exactly one index per voxel");
    }
    std::vector<size_t> u = spoc::subsampling::get_unique_xyz_indexes (in, seed);
    std::vector<bool> uu (n);
    for (auto k : u) { vs_check (k < n && !uu[k], "indexes are valid and distinct"); uu[k] = true; }
    for (size_t k = 0; k < n; ++k)
    {
        uint64_t c = 0;
        for (size_t j = 0; j < n; ++j) if (uu[j]) c += g[j] == g[k];
        vs_check (c == 1, "exactly one index per location");
    }
    vs_reach ("end");
}
// voxels far apart, with the real hash function
extern "C" void subsample_wide ()
{
    point_records in (2 + vs_tier ());
    uint64_t g[3][3] = {};
    for (size_t k = 1; k < in.size (); ++k)
    {
        for (int d = 0; d < 3; ++d) g[k][d] = vs_sym ("g", 34);
        in[k].x = (double) g[k][0]; in[k].y = (double) g[k][1]; in[k].z = (double) g[k][2];
    }
    std::vector<size_t> r = spoc::subsampling::get_subsample_indexes (in, 2.0, 0);
    std::vector<bool> used (in.size ());
    for (auto k : r) { vs_check (k < in.size () && !used[k], "indexes are valid and distinct"); used[k] = true; }
    for (size_t k = 0; k < in.size (); ++k)
    {
        bool first = true;
        for (size_t j = 0; j < k; ++j) first &= (g[j][0] / 2 != g[k][0] / 2) | (g[j][1] / 2 != g[k][1] / 2) | (g[j][2] / 2 != g[k][2] / 2);
        vs_check (first == used[k], "the first point of every voxel is kept");
    }
    vs_reach ("end");
}
// the same seed gives the same output (real generator)
extern "C" void same_seed ()
{
    vs_rng_mode (0);
    const size_t n = 3;
    point_records in = any_points (n, 0);
    for (size_t k = 0; k < n; ++k) { place (in[k], any_grid (3, 0, 0), 1.0); }
    std::string bytes = file_bytes ("w", in);
    static const char *const cmd[] = {"-u", "-s2"};
    static const char *const seed[] = {"-a0", "-a1", "-a77"};
    std::vector<std::string> args {seed[vs_choose ("seed", 0, 2)], cmd[vs_choose ("cmd", 0, 1)]};
    tool_result a = tool (filter_main, args, bytes, 0);
    tool_result b = tool (filter_main, args, bytes, 1);
    vs_check (a.rc == 0 && b.rc == 0 && diff (a.out, b.out) == 0, "the same seed gives the same output");
    vs_reach ("end");
}
// C16: remove-coords
extern "C" void remove_coordinates ()
{
    const size_t n = vs_tier () ? 4 : 3;
    bool comp = vs_choose ("comp", 0, 1) != 0;
    point_records in = filter_points (n, 1, comp);
    int axis = (int) vs_choose ("axis", 0, 2), gt = (int) vs_choose ("gt", 0, 1), mode = (int) vs_choose ("mode", 0, 1);
    double v = any_typed ("v");
    std::string op = std::string (1, "xyz"[axis]) + (gt ? " > " : " < ") + text (v);
    std::vector<std::string> args;
    if (vs_choose ("form", 0, 1)) args.push_back ("--remove-coords=" + op); else { args.push_back ("-c"); args.push_back (op); }
    tool_result t = tool (filter_main, args, filter_input ("w", in, comp), mode);
    spoc_file g = result (t, "w", comp);
    std::vector<size_t> want;
    for (size_t k = 0; k < n; ++k)
    {
        double c = axis == 0 ? in[k].x : axis == 1 ? in[k].y : in[k].z;
        bool drop = gt ? c > v : c < v;
        if (!drop) want.push_back (k);
    }
    same_records (g, in, want);
    vs_reach (want.empty () ? "none" : want.size () == n ? "all" : "some");
}
extern "C" void remove_coordinates_errors ()
{
    static const char *const bad[] = {"", "x", "x >", "x > ", "x > q", "w > 1", "x = 1", "x >= 1", "x > 1 2", "x>1", " x > 1", "x  > 1", "xx > 1", "> x 1", "1 < x"};
    size_t k = vs_choose ("k", 1, sizeof bad / sizeof *bad - 1);
    point_records in = any_points (1, 0);
    tool_result t = tool (filter_main, {"-c", bad[k]}, file_bytes ("w", in), 0);
    vs_check (t.rc != 0, "a malformed condition is reported");
    vs_check (!t.err.empty (), "a malformed condition has a message");
    vs_check (!t.out_exists || t.out.empty (), "nothing is written");
    vs_reach ("end");
}
// more points than a 16-bit number can count; one of the last has a symbolic content
static void many (int kind)
{
    const size_t n = 65536 + 9, at = 65540;
    point_records in (n);
    for (size_t k = 0; k < n; ++k)
    {
        in[k].x = (double) (k & 1023); in[k].y = (double) (k >> 10); in[k].z = -1;
        in[k].c = (uint32_t) (k & 31); in[k].p = (uint32_t) k;
    }
    const point_record old = in[at];
    in[at] = any_point (0);
    if (kind != 0) in[at].c = 2;
    if (kind != 3) { in[at].x = old.x; in[at].y = old.y; in[at].z = old.z; }
    const size_t twin = kind == 1 || kind == 2 ? vs_choose ("twin", 0, 2) : 0;
    if (twin) { in[at].x = in[twin == 1 ? 5 : at - 1].x; in[at].y = in[twin == 1 ? 5 : at - 1].y; }
    vs_buckets (true);
    std::vector<std::string> args;
    std::vector<size_t> want;
    const double limit = 4;
    for (size_t k = 0; k < n; ++k)
    {
        const bool drop = kind == 0 ? in[k].c == 3 : kind == 3 ? in[k].x < limit : k == at && twin;
        if (!drop) want.push_back (k);
    }
    if (kind == 0) args = {"--remove-class=3"}; else if (kind == 1) args = {"-u"}; else if (kind == 2) args = {"-s", "0.5"}; else args = {"-c", "x < 4"};
    tool_result t = tool (filter_main, args, file_bytes ("w", in), 1);
    spoc_file g = result (t, "w", false);
    same_records (g, in, want);
    vs_reach ("end");
}
extern "C" void many_classes () { many (0); }
extern "C" void many_unique () { many (1); }
extern "C" void many_subsample () { many (2); }
extern "C" void many_coordinates () { many (3); }
