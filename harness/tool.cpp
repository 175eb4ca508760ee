// C25: the field tool
#include "apps.h"
#include "grid.h"
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
static spoc_file output (const tool_result &t, const std::string &wkt, bool comp)
{
    vs_check (t.rc == 0 && t.out_exists, "the tool succeeds");
    spoc_file g = parse (t.out);
    vs_check (diff (g.get_wkt (), wkt) == 0, "the spatial reference is kept");
    vs_check (g.get_compressed () == comp, "the compression flag is kept");
    return g;
}
static std::string input (const std::string &wkt, const point_records &in, bool comp)
{
    return comp ? compressed_bytes (wkt, in) : file_bytes (wkt, in);
}
static void lit_columns (point_records &in)
{
    for (auto &p : in)
    {
        vs_assume (((vs_bits (p.x) & vs_bits (p.y) & vs_bits (p.z) & p.c & p.p & p.i & p.r & p.g & p.b) & 1) != 0);
        for (auto e : p.extra) vs_assume ((e & 1) != 0);
    }
}
static void refused (const tool_result &t, const char *msg)
{
    vs_check (t.rc != 0, msg);
    vs_check (!t.err.empty (), "the error has a message");
    vs_check (!t.out_exists || t.out.empty (), "nothing is written");
}
static double rounded (double v)
{
    std::ostringstream s; s << std::setprecision (16) << v;
    size_t pos = 0; double r = 0;
    vs_get_double (s.str (), pos, r);
    return r;
}
extern "C" void get_field ()
{
    const size_t n = vs_choose ("n", 0, 2 + vs_tier ()), ne = 2;
    bool comp = vs_choose ("comp", 0, 1) != 0;
    point_records in = any_points (n, ne);
    if (comp) lit_columns (in);
    size_t f = vs_choose ("field", 0, 10), form = vs_choose ("form", 0, 1);
    if (f < 3) for (auto &p : in) { double d = vs_unbits (field (p, f)); vs_assume ((d - d == 0) & (rounded (d) == d)); }
    std::vector<std::string> args;
    if (form) args.push_back (std::string ("--get-field=") + FIELDS[f]); else { args.push_back ("-g"); args.push_back (FIELDS[f]); }
    int mode = (int) vs_choose ("mode", 0, 1);
    tool_result t = tool (tool_main, args, input ("w", in, comp), mode);
    vs_check (t.rc == 0, "the tool succeeds");
    if (mode == 0) vs_check (!t.out_exists, "getting a field writes no file");
    const std::string s = mode == 0 ? t.text : t.out;
    size_t pos = 0;
    for (size_t k = 0; k < n; ++k)
    {
        if (f < 3)
        {
            double v = 0;
            vs_check (vs_get_double (s, pos, v), "a value is printed");
            vs_check (v == vs_unbits (field (in[k], f)), "the printed coordinate reads back");
        }
        else
        {
            uint64_t v = 0, minus = 0;
            vs_check (vs_get_int (s, pos, v, &minus), "a value is printed");
            vs_check ((vs_ne (v, field (in[k], f)) | minus) == 0, "the printed number is the field");
        }
        vs_check (pos < s.size () && s[pos] == '\n', "one value per line");
        ++pos;
    }
    vs_check (pos == s.size (), "one value per point");
    vs_reach ("end");
}
static std::string value_text (point_record &p, size_t f)
{
    if (f < 3) return text (vs_unbits (field (p, f)));
    return text (field (p, f));
}
extern "C" void set_field ()
{
    const size_t n = vs_choose ("n", 0, 2 + vs_tier ()), ne = 1;
    bool comp = vs_choose ("comp", 0, 1) != 0;
    point_records in = any_points (n, ne);
    if (comp) lit_columns (in);
    size_t f = vs_choose ("field", 0, 11);
    point_records want = in;
    std::string list;
    size_t sep = vs_choose ("sep", 0, 1);
    static const char *const seps[] = {"\n", " \r\n\t"};
    for (auto &p : want)
    {
        if (f >= 9) p.extra.resize (std::max (p.extra.size (), f - 8));
        if (f < 3) put_field (p, f, vs_bits (any_typed ("v"))); else put_field (p, f, vs_u64 ("v"));
        if (comp) vs_assume ((field (p, f) & 1) != 0);
        list += value_text (p, f) + seps[sep];
    }
    // the last value need not end in a newline
    if (n && vs_choose ("last", 0, 1)) list.resize (list.size () - strlen (seps[sep]));
    vs_file_put ("f.txt", list); side_files = 1;
    size_t form = vs_choose ("form", 0, 1);
    std::vector<std::string> args;
    if (form) { args.push_back (std::string ("--set-field=") + FIELDS[f]); args.push_back ("-ff.txt"); }
    else { args.push_back ("--field-filename"); args.push_back ("f.txt"); args.push_back ("-s"); args.push_back (FIELDS[f]); }
    int mode = (int) ((form + sep) & 1);
    tool_result t = tool (tool_main, args, input ("w", in, comp), mode);
    if (n == 0 && f >= 9) { vs_reach ("end"); return; }
    spoc_file g = output (t, "w", comp);
    vs_check (g.get_point_records ().size () == n, "as many points as before");
    vs_check (diff (g.get_point_records (), want) == 0, "the field is set and nothing else");
    std::string after;
    vs_check (vs_file_get ("f.txt", after) && diff (after, list) == 0, "the list is left alone");
    vs_reach ("end");
}
extern "C" void set_field_errors ()
{
    const size_t n = 2;
    point_records in = any_points (n, 1);
    static const char *const bad[] = {"", "1", "1\n", " \n", "q\n1\n", "1\nq\n", "1\n\n", ",1\n2\n", "--1\n2\n"};
    static const char *const names[] = {"x", "c", "i", "e0", "e1"};
    size_t b = vs_choose ("bad", 0, 8 + 5), f = vs_choose ("field", 0, 4);
    std::vector<std::string> args;
    if (b < 9)
    {
        vs_file_put ("f.txt", bad[b]); side_files = 1;
        args = {std::string ("-s") + names[f], "-f", "f.txt"};
    }
    else
    {
        vs_file_put ("f.txt", "1\n2\n3\n"); side_files = 1;
        static const char *const badnames[] = {"", "q", "e", "eq", "xx"};
        switch (b - 9)
        {
            case 0: args = {std::string ("-s") + names[f]}; break;
            case 1: args = {std::string ("-s") + names[f], "-f", "g.txt"}; break;
            case 2: args = {std::string ("--set-field=") + badnames[f], "-f", "f.txt"}; break;
            case 3: args = {std::string ("--get-field=") + badnames[f]}; break;
            case 4: { static const char *const none[] = {"e1", "e2", "e9", "e255", "e1000"}; args = {std::string ("--get-field=") + none[f]}; break; }
        }
    }
    refused (tool (tool_main, args, file_bytes ("w", in), (int) vs_choose ("mode", 0, 1)), "a bad list or field is reported");
    vs_reach ("end");
}
// recentering and moving the minimum to the origin, on a grid where the arithmetic is exact
extern "C" void move_points ()
{
    static const size_t counts[] = {0, 1, 2, 4};
    const size_t n = counts[vs_choose ("n", 0, 2 + vs_tier ())];
    bool comp = vs_choose ("comp", 0, 1) != 0, min = vs_choose ("min", 0, 1) != 0, z = vs_choose ("z", 0, 1) != 0, far = n > 1 && vs_choose ("far", 0, 1) != 0;
    point_records in = any_points (n, 1);
    std::vector<grid_point> g;
    int64_t sum[3] = {0, 0, 0}, low[3] = {0, 0, 0};
    for (size_t k = 0; k < n; ++k)
    {
        g.push_back (any_grid (6, 6, 6));
        // far from the origin the coordinates need more digits than a float has
        if (far) for (int d = 0; d < 3; ++d) g[k].v[d] += (int64_t) 1 << 30;
        place (in[k], g[k], 0.25);
        for (int d = 0; d < 3; ++d) { sum[d] += g[k].v[d]; low[d] = k ? imin (low[d], g[k].v[d]) : g[k].v[d]; }
    }
    if (comp) for (auto &p : in) vs_assume (((p.c & p.p & p.i & p.r & p.g & p.b & p.extra[0]) & 1) != 0);
    const char *name = min ? (z ? "--subtract-min-xyz" : "--subtract-min-xy") : (z ? "--recenter-xyz" : "--recenter-xy");
    tool_result t = tool (tool_main, {name}, input ("w", in, comp), (int) z);
    spoc_file o = output (t, "w", comp);
    const point_records &p = o.get_point_records ();
    vs_check (p.size () == n, "as many points as before");
    for (size_t k = 0; k < n; ++k)
    {
        for (int d = 0; d < 3; ++d)
        {
            // n * 4 * coordinate is an integer
            double got = d == 0 ? p[k].x : d == 1 ? p[k].y : p[k].z;
            int64_t want = d == 2 && !z ? g[k].v[d] * (int64_t) n : min ? (g[k].v[d] - low[d]) * (int64_t) n : g[k].v[d] * (int64_t) n - sum[d];
            vs_check (got == (double) want * (0.25 / n), "the coordinate is moved");
        }
        point_record q = p[k]; q.x = in[k].x; q.y = in[k].y; q.z = in[k].z;
        vs_check (diff (q, in[k]) == 0, "only coordinates change");
    }
    vs_reach ("end");
}
extern "C" void resize_fields ()
{
    const size_t n = vs_choose ("n", 0, 2), ne = vs_choose ("ne", 0, 2);
    bool comp = vs_choose ("comp", 0, 1) != 0;
    point_records in = any_points (n, ne);
    if (comp) lit_columns (in);
    static const char *const sizes[] = {"0", "1", "2", "3", "17", "255", "256", "-1", "x", "", "1000", "99999999999"};
    static const int value[] = {0, 1, 2, 3, 17, 255};
    size_t s = vs_choose ("size", 0, 11);
    tool_result t = tool (tool_main, {std::string ("--resize-extra=") + sizes[s]}, input ("w", in, comp), (int) (s & 1));
    if (s > 5) { refused (t, "a size that is not possible is reported"); vs_reach ("bad"); return; }
    spoc_file o = output (t, "w", comp);
    for (auto &p : in) p.extra.resize (value[s]);
    vs_check (o.get_point_records ().size () == n, "as many points as before");
    vs_check (diff (o.get_point_records (), in) == 0, "only the number of extra fields changes");
    vs_reach ("good");
}
// classes of a subsampled cloud go to all points of the voxels
extern "C" void upsample ()
{
    const size_t n = 3;
    point_records high = any_points (n, 1), low;
    std::vector<grid_point> g;
    for (size_t k = 0; k < n; ++k) { g.push_back (any_grid (5, 0, 0)); place (high[k], g[k], 0.5); high[k].z = 3; high[k].y = -1; }
    int64_t mn = imin (imin (g[0].v[0], g[1].v[0]), g[2].v[0]);
    static const int num[] = {2, 1, 6};
    static const char *const rtext[] = {"1", "0.5", "3"};
    size_t ri = vs_choose ("res", 0, 1 + vs_tier ());
    auto vox = [&] (size_t k) { return ((uint64_t) (g[k].v[0] - mn) & 0x3f) / (uint64_t) num[ri]; };
    size_t mask = vs_choose ("mask", 0, 7);
    std::vector<uint32_t> cls (n);
    for (size_t k = 0; k < n; ++k)
        if (mask >> k & 1)
        {
            for (size_t j = 0; j < k; ++j) if (mask >> j & 1) vs_assume (vox (j) != vox (k));
            point_record p = high[k]; p.c = cls[k] = vs_u32 ("class"); p.p = 5; p.extra.clear (); low.push_back (p);
        }
    vs_file_put ("high.spoc", file_bytes ("high", high)); side_files = 1;
    std::vector<std::string> args {"--upsample-classifications=high.spoc", std::string ("--resolution=") + rtext[ri]};
    if (mask == 7) args.push_back ("-v");
    tool_result t = tool (tool_main, args, file_bytes ("low", low), (int) (mask & 1));
    spoc_file o = output (t, "high", false);
    const point_records &out = o.get_point_records ();
    vs_check (out.size () == n, "as many points as before");
    for (size_t k = 0; k < n; ++k)
    {
        uint32_t want = high[k].c;
        for (size_t j = 0; j < n; ++j) if (mask >> j & 1) want = vox (j) == vox (k) ? cls[j] : want;
        point_record q = high[k]; q.c = out[k].c;
        vs_check (vs_ne (out[k].c, want) == 0, "the class of the voxel");
        vs_check (diff (out[k], q) == 0, "only classes change");
    }
    vs_reach ("end");
}
