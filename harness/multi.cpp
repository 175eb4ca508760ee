// Tools that read or write several files: diff, merge, tile.
#include "apps.h"
#include "grid.h"
#define main diff_main
#include "apps/diff/diff.cpp"
#undef main
#define main merge_main
#include "apps/merge/merge.cpp"
#undef main
#define main tile_main
#include "apps/tile/tile.cpp"
#undef main
static bool no_nan (const point_records &v)
{
    bool ok = true;
    for (auto &p : v) ok &= (p.x == p.x) & (p.y == p.y) & (p.z == p.z);
    return ok;
}
static bool field_equal (const point_record &a, const point_record &b, size_t f)
{
    switch (f) { case 0: return a.x == b.x; case 1: return a.y == b.y; case 2: return a.z == b.z; }
    return field (a, f) == field (b, f);
}
static bool fields_equal (const point_records &a, const point_records &b, size_t f)
{
    if (a.size () != b.size ()) return false;
    bool same = true;
    for (size_t k = 0; k < a.size (); ++k) same &= field_equal (a[k], b[k], f);
    return same;
}
static int run_diff (const std::vector<std::string> &args, const std::string &a, const std::string &b)
{
    std::vector<std::string> v {"diff"};
    v.insert (v.end (), args.begin (), args.end ());
    v.push_back ("a.spoc"); v.push_back ("b.spoc");
    vs_file_put ("a.spoc", a); vs_file_put ("b.spoc", b);
    vs_run_result r = vs_run (diff_main, v);
    std::string t;
    vs_check (vs_file_get ("a.spoc", t) && diff (t, a) == 0 && vs_file_get ("b.spoc", t) && diff (t, b) == 0 && vs_file_count () == 2, "the files are left alone");
    vs_check (r.out.empty (), "the verdict is the exit code");
    return r.rc;
}
// C19: the verdict for two files of the same shape that differ in one place at most (any column)
extern "C" void diff_verdict ()
{
    const size_t n = vs_choose ("n", 1, 2), ne = vs_choose ("ne", 0, 2);
    point_records a = any_points (n, ne), b = a;
    size_t f = vs_choose ("f", 0, 8 + ne), k = n - 1;
    point_record other = any_point (ne);
    put_field (b[k], f, field (other, f));
    vs_assume (no_nan (a) & no_nan (b));
    std::string wa = any_string ("w", 2), wb = wa;
    int wc = (int) vs_choose ("wkt", 0, 2);
    if (wc == 1) { wb = wa; wb[1] = (char) vs_u8 ("w2"); } else if (wc == 2) wb = wa + "x";
    int opt = (int) vs_choose ("opt", 0, 4), rev = (int) vs_choose ("rev", 0, 1);
    std::vector<std::string> args;
    bool same_header = (wa.size () == wb.size ()) && ((wa[0] == wb[0]) & (wa[1] == wb[1]));
    bool same_data = fields_equal (a, b, f);
    bool same = true;
    if (opt == 0) same = same_header & same_data;
    else if (opt == 1) { args.push_back ("--header-only"); same = same_header; }
    else if (opt == 2) { args.push_back ("-d"); same = same_data; }
    else if (opt == 3)
    {
        static const char *const names[] = {"x", "y", "z", "c", "p", "i", "r", "g", "b", "0", "1"};
        size_t q = vs_choose ("q", 0, 10);
        args.push_back (std::string ("--field=") + names[q]);
        same = q >= 9 + ne ? true : fields_equal (a, b, q);
    }
    else { args.push_back ("-fxz"); args.push_back ("-f"); args.push_back ("c"); same = f == 0 || f == 2 || f == 3 ? same_data : true; }
    if (rev) args.push_back (vs_choose ("long", 0, 1) ? "--reverse" : "-r");
    int rc = run_diff (args, file_bytes (wa, a), file_bytes (wb, b));
    vs_check ((rc == 0) == (same != (rev != 0)), "the exit code tells whether the files are equal");
    vs_reach (same ? "same" : "different");
}
// C19: two fields differ in any way, at every point
extern "C" void diff_fields ()
{
    const size_t n = 2 + vs_tier (), ne = 2;
    point_records a = any_points (n, ne), b = a;
    size_t f = vs_choose ("f", 0, 10), g = vs_choose ("g", 0, 1) ? (f + 1) % 11 : f;
    for (auto &p : b)
    {
        point_record other = any_point (ne);
        put_field (p, f, field (other, f)); put_field (p, g, field (other, g));
    }
    vs_assume (no_nan (a) & no_nan (b));
    bool same = fields_equal (a, b, f) & fields_equal (a, b, g);
    std::vector<std::string> args;
    if (vs_choose ("opt", 0, 1)) args.push_back ("--data-only");
    int rc = run_diff (args, file_bytes ("w", a), file_bytes ("w", b));
    vs_check ((rc == 0) == same, "the exit code tells whether the files are equal");
    vs_reach (same ? "same" : "different");
}
// C19: files of different shape
extern "C" void diff_shape ()
{
    const size_t n1 = vs_choose ("n1", 0, 2), n2 = vs_choose ("n2", 0, 2), e1 = vs_choose ("e1", 0, 2), e2 = vs_choose ("e2", 0, 2);
    point_records a = any_points (n1, e1), b;
    for (size_t k = 0; k < n2; ++k)
    {
        point_record p = k < n1 ? a[k] : any_point (e2);
        p.extra.resize (e2);
        b.push_back (p);
    }
    vs_assume (no_nan (a) & no_nan (b));
    // compressed columns with content
    for (auto *v : {&a, &b}) for (auto &p : *v) { vs_assume ((vs_bits (p.x) & vs_bits (p.y) & vs_bits (p.z) & p.c & p.p & p.i & p.r & p.g & p.b & 1) != 0); for (auto e : p.extra) vs_assume ((e & 1) != 0); }
    bool c1 = vs_choose ("c1", 0, 1) != 0;
    int opt = (int) vs_choose ("opt", 0, 5);
    std::vector<std::string> args;
    static const char *const names[] = {"", "--header-only", "--data-only", "-fx", "-f0", "-f1"};
    if (opt) args.push_back (names[opt]);
    size_t E1 = n1 ? e1 : 0, E2 = n2 ? e2 : 0;
    bool sh = n1 == n2 && E1 == E2 && !c1, sd = n1 == n2 && E1 == E2, same;
    size_t f = opt - 4;
    switch (opt)
    {
        case 0: same = sh && sd; break;
        case 1: same = sh; break;
        case 2: same = sd; break;
        case 3: same = n1 == n2; break;
        default: same = (f < E1) == (f < E2) && (f >= E1 || n1 == n2); break;
    }
    if (E1 != E2 && n1 == n2 && opt >= 4 && f < E1 && f < E2) same = true;
    int rc = run_diff (args, c1 ? compressed_bytes ("w", a) : file_bytes ("w", a), file_bytes ("w", b));
    vs_check ((rc == 0) == same, "files of different shape are told apart");
    vs_reach (same ? "same" : "different");
}
// C19: exclusive options, unknown fields, missing or damaged files
extern "C" void diff_errors ()
{
    point_records a = any_points (1, 1);
    vs_assume (no_nan (a));
    std::string bytes = file_bytes ("w", a), second = bytes;
    int how = (int) vs_choose ("how", 0, 8), rev = (int) vs_choose ("rev", 0, 1);
    std::vector<std::string> args;
    if (rev) args.push_back ("-r");
    switch (how)
    {
        case 0: args.push_back ("-a"); args.push_back ("-d"); break;
        case 1: args.push_back ("-a"); args.push_back ("-fx"); break;
        case 2: args.push_back ("-d"); args.push_back ("-fx"); break;
        case 3: args.push_back ("-fq"); break;
        case 4: args.push_back ("-fe"); break;
        case 5: second.resize (vs_choose ("cut", 0, bytes.size () - 1)); break;
        case 6: { uint8_t s = vs_u8 ("sig"); vs_assume (s != 'P'); second[1] = (char) s; break; }
        case 7: args.push_back ("--nosuch"); break;
        case 8: args.push_back ("third.spoc"); break;
    }
    int rc = run_diff (args, bytes, second);
    vs_check (rc != 0, "an error is never reported as success");
    if (rev && how >= 5 && how <= 6) rc = run_diff (args, second, bytes), vs_check (rc != 0, "an error is never reported as success");
    vs_reach ("end");
}
// C18: merge
extern "C" void merge_files ()
{
    const size_t files = vs_choose ("files", 2, 2 + vs_tier ()), ne = vs_choose ("ne", 0, 1);
    std::vector<std::string> args {"merge"}, contents;
    point_records want;
    int id = (int) vs_choose ("id", 0, 1);
    uint32_t pid = 0;
    if (id) { pid = vs_u32 ("P"); vs_assume (pid < 0x80000000u); args.push_back ("--point-id=" + text (pid)); }
    bool quiet = vs_choose ("quiet", 0, 1) != 0;
    if (quiet) args.push_back ("-q");
    bool comp = true, warn = false;
    std::string first;
    for (size_t f = 0; f < files; ++f)
    {
        size_t n = vs_choose ("n", 0, 2);
        point_records p = any_points (n, ne);
        bool c = vs_choose ("comp", 0, 1) != 0;
        for (auto &q : p) { vs_assume ((vs_bits (q.x) & vs_bits (q.y) & vs_bits (q.z) & q.c & q.p & q.i & q.r & q.g & q.b & 1) != 0); for (auto e : q.extra) vs_assume ((e & 1) != 0); }
        std::string w = vs_choose ("wkt", 0, 1) ? "ab" : "c";
        if (f == 0) first = w; else warn |= w != first;
        comp &= c;
        contents.push_back (c ? compressed_bytes (w, p) : file_bytes (w, p));
        std::string name = std::string ("in") + char ('0' + f) + ".spoc";
        vs_file_put (name, contents.back ());
        args.push_back (name);
        for (auto q : p) { q.p = id ? pid : (uint32_t) f; want.push_back (q); }
    }
    vs_run_result r = vs_run (merge_main, args);
    vs_check (r.rc == 0, "merging succeeds");
    spoc_file g = parse (r.out);
    vs_check (g.get_wkt () == first, "the spatial reference is that of the first file");
    vs_check (g.get_compressed () == comp, "the output is compressed when every input is");
    vs_check (diff (g.get_point_records (), want) == 0, "every point of every file, in order, with its identifier");
    if (!quiet && warn) vs_check (!r.err.empty (), "different spatial references are reported");
    if (quiet) vs_check (r.err.empty (), "quiet is quiet");
    for (size_t f = 0; f < files; ++f)
    {
        std::string t;
        vs_check (vs_file_get (args[args.size () - files + f], t) && diff (t, contents[f]) == 0, "the inputs are left alone");
    }
    vs_check (vs_file_count () == files, "no file appears");
    vs_reach ("end");
}
extern "C" void merge_errors ()
{
    point_records a = any_points (1, 1), b = any_points (1, 2);
    std::string A = file_bytes ("w", a), B = file_bytes ("w", a);
    int how = (int) vs_choose ("how", 0, 4);
    std::vector<std::string> args {"merge", "a.spoc"};
    if (how == 1) B = file_bytes ("w", b);
    else if (how == 2) B.resize (vs_choose ("cut", 0, B.size () - 1));
    vs_file_put ("a.spoc", A);
    if (how != 3) vs_file_put ("b.spoc", B);
    if (how != 4) args.push_back ("b.spoc");
    vs_run_result r = vs_run (merge_main, args);
    vs_check ((r.rc == 0) == (how == 0), "files that cannot be merged are reported");
    if (how) { vs_check (r.out.empty (), "nothing is written"); vs_check (!r.err.empty (), "there is a message"); }
    vs_reach (how ? "bad" : "good");
}
// C17: tiles partition the input
static std::string digits (uint64_t v, size_t w)
{
    std::string s = std::to_string (v);
    while (s.size () < w) s.insert (s.begin (), '0');
    return s;
}
static void tile_check (const point_records &in, const std::string &wkt, bool comp, const std::string &prefix, const std::string &ext, size_t width, size_t others,
    std::vector<int64_t> &tile_of, size_t &count)
{
    const size_t n = in.size ();
    std::vector<bool> used (n);
    tile_of.assign (n, -1);
    count = 0;
    std::vector<std::string> names;
    for (size_t k = vs_file_count (); k-- > 0;) names.push_back (vs_file_name (k));
    for (auto &name : names)
    {
        // the prefix, a number of at least so many digits, the extension
        if (name.size () < prefix.size () + width + ext.size () || name.compare (0, prefix.size (), prefix) != 0 || name.compare (name.size () - ext.size (), ext.size (), ext) != 0) continue;
        const std::string number = name.substr (prefix.size (), name.size () - prefix.size () - ext.size ());
        int64_t t = 0;
        bool number_ok = number.size () <= 18;
        for (char c : number) { number_ok = number_ok && c >= '0' && c <= '9'; t = t * 10 + (c - '0'); }
        if (!number_ok || digits ((uint64_t) t, width) != number) continue;
        std::string bytes;
        vs_file_get (name, bytes);
        ++count;
        spoc_file g = parse (bytes);
        vs_check (diff (g.get_wkt (), wkt) == 0, "a tile keeps the spatial reference");
        vs_check (g.get_compressed () == comp, "a tile keeps the compression flag");
        vs_check (!g.get_point_records ().empty (), "no tile is empty");
        size_t last = 0;
        for (auto &p : g.get_point_records ())
        {
            size_t k = p.p;
            vs_check (k < n && !used[k], "every point is in one tile only");
            vs_check (diff (p, in[k]) == 0, "points are unchanged");
            vs_check (k >= last, "points keep their order");
            last = k;
            used[k] = true; tile_of[k] = t;
        }
        vs_file_remove (name);
    }
    vs_check (vs_file_count () == others, "only tiles are written, named by prefix and number");
    for (size_t k = 0; k < n; ++k) vs_check (used[k], "every point is in a tile");
}
static point_records tile_points (size_t n, std::vector<grid_point> &g, int bx, int by, bool comp, int64_t *mn, int64_t *mx)
{
    point_records in = any_points (n, 1);
    for (size_t k = 0; k < n; ++k)
    {
        g.push_back (any_grid (bx, by, 0));
        double z = in[k].z;
        place (in[k], g[k], 0.5);
        in[k].z = z;
        in[k].p = (uint32_t) k;
        if (comp) { vs_assume ((vs_bits (in[k].z) & in[k].c & in[k].i & in[k].r & in[k].g & in[k].b & in[k].extra[0] & 1) != 0); vs_assume ((g[k].v[0] != 0) & (g[k].v[1] != 0)); in[k].p = (uint32_t) k; }
        for (int d = 0; d < 2; ++d) { mn[d] = k ? imin (mn[d], g[k].v[d]) : g[k].v[d]; mx[d] = k ? imax (mx[d], g[k].v[d]) : g[k].v[d]; }
    }
    return in;
}
extern "C" void tile_sizes ()
{
    const size_t n = vs_tier () ? 3 : 2;
    bool comp = vs_choose ("comp", 0, 1) != 0;
    std::vector<grid_point> g;
    int64_t mn[2], mx[2];
    int how = (int) vs_choose ("how", 0, 2); // square, x and y, slices
    point_records in = tile_points (n, g, how == 2 ? 6 : 4, how == 2 ? 6 : 4, comp, mn, mx);
    static const char *const text[] = {"1.5", "3", "1"};
    static const int size[] = {3, 6, 2}; // halves
    size_t sx = vs_choose ("sx", 0, 1 + vs_tier ()), sy = how == 1 ? vs_choose ("sy", 0, 1 + vs_tier ()) : sx;
    int name = (int) vs_choose ("name", 0, 2); // input name, prefix, standard input
    std::vector<std::string> args {"tile"};
    int slice = how == 2 ? (int) vs_choose ("slice", 0, 1) : 0;
    if (how == 0) args.push_back (std::string ("--tile-size=") + text[sx]);
    if (how == 1 || (how == 2 && slice == 0)) args.push_back (std::string ("--tile-size-x=") + text[sx]);
    if (how == 1 || (how == 2 && slice == 1)) { args.push_back ("-y"); args.push_back (text[sy]); }
    size_t width = 3;
    if (name == 1) { args.push_back ("--prefix=dir/t_"); args.push_back ("-d"); args.push_back ("2"); width = 2; }
    if (name == 2) { args.push_back ("-p"); args.push_back ("q"); }
    std::string bytes = comp ? compressed_bytes ("wkt", in) : file_bytes ("wkt", in), after;
    vs_run_result r;
    if (name != 2) { vs_file_put ("dir/cloud.abc", bytes); args.push_back ("dir/cloud.abc"); r = vs_run (tile_main, args); }
    else r = vs_run (tile_main, args, bytes);
    vs_check (r.rc == 0, "tiling succeeds");
    vs_check (r.out.empty (), "nothing is printed");
    if (name != 2) vs_check (vs_file_get ("dir/cloud.abc", after) && diff (after, bytes) == 0, "the input is left alone");
    std::vector<int64_t> tile;
    size_t count;
    tile_check (in, "wkt", comp, name == 0 ? "cloud" : name == 1 ? "dir/t_" : "q", name == 2 ? (comp ? ".zpoc" : ".spoc") : ".abc", width, name != 2, tile, count);
    bool ux = how != 2 || slice == 0, uy = how != 2 || slice == 1;
    for (size_t a = 0; a < n; ++a)
        for (size_t b = 0; b < a; ++b)
        {
            bool cx = !ux || (((uint64_t) (g[a].v[0] - mn[0]) & 0x7f) / size[sx]) == (((uint64_t) (g[b].v[0] - mn[0]) & 0x7f) / size[sx]);
            bool cy = !uy || (((uint64_t) (g[a].v[1] - mn[1]) & 0x7f) / size[sy]) == (((uint64_t) (g[b].v[1] - mn[1]) & 0x7f) / size[sy]);
            vs_check ((tile[a] == tile[b]) == (cx & cy), "two points share a tile when they are in the same cell");
        }
    vs_reach (count > 1 ? "many" : "one");
}
// the number of tiles along the longest side
extern "C" void tile_counts ()
{
    size_t tiles = pick ("tiles", {1, 2, 4});
    const int bx = (int) pick ("bx", {0, 2, 3}), by = (int) pick ("by", {0, 2, 3});
    const int64_t ex = (1 << bx) - 1, ey = (1 << by) - 1, ox = vs_choose ("ox", 0, 1) ? 1000003 : -5, oy = 7;
    bool anti = vs_choose ("anti", 0, 1) != 0;
    point_records in = any_points (3, 1);
    int64_t u[3][2] = {{0, anti ? ey : 0}, {ex, anti ? 0 : ey}, {bx ? (int64_t) vs_sym ("ux", bx) : 0, by ? (int64_t) vs_sym ("uy", by) : 0}};
    for (int k = 0; k < 3; ++k)
    {
        in[k].x = (double) (ox + u[k][0]) * 0.5; in[k].y = (double) (oy + u[k][1]) * 0.5;
        in[k].p = (uint32_t) k;
    }
    std::vector<std::string> args {"tile"};
    if (tiles != 2 || vs_choose ("explicit", 0, 1)) args.push_back ("--tiles=" + text ((uint64_t) tiles));
    std::string bytes = file_bytes ("w", in);
    vs_file_put ("c.spoc", bytes);
    args.push_back ("c.spoc");
    vs_run_result r = vs_run (tile_main, args);
    vs_check (r.rc == 0, "tiling succeeds");
    std::vector<int64_t> tile;
    size_t count;
    tile_check (in, "w", false, "c", ".spoc", 3, 1, tile, count);
    vs_check (count <= tiles * tiles, "no more tiles than asked for");
    // cells of the longest side divided by the number of tiles; the far end belongs to the last cell
    const int64_t ext = ex > ey ? ex : ey;
    uint64_t cell[3][2];
    for (int k = 0; k < 3; ++k)
        for (int d = 0; d < 2; ++d)
        {
            uint64_t c = ext ? (((uint64_t) u[k][d] & 7) * tiles) / (uint64_t) ext : 0;
            cell[k][d] = c < tiles ? c : tiles - 1;
        }
    for (int a = 0; a < 3; ++a)
        for (int b = 0; b < a; ++b)
            vs_check ((tile[a] == tile[b]) == ((cell[a][0] == cell[b][0]) & (cell[a][1] == cell[b][1])), "two points share a tile when they are in the same cell");
    vs_reach (count > 1 ? "many" : "one");
}
// existing files are not overwritten without force
// tiles far apart: their numbers take more than 16 or 32 bits
extern "C" void tile_far ()
{
    const int64_t far = vs_choose ("far", 0, 1) ? 65536 : 4294967296;
    const bool tall = vs_choose ("tall", 0, 1) != 0;
    point_records in = any_points (4, 0);
    int64_t u[4][2] = {{0, 0}, {far, 1}, {(int64_t) vs_sym ("u", 2), (int64_t) vs_sym ("v", 1)}, {far - 1 + (int64_t) vs_choose ("w", 0, 1), 0}};
    for (size_t k = 0; k < 4; ++k)
    {
        if (tall) std::swap (u[k][0], u[k][1]);
        in[k].x = (double) (u[k][0] - 5); in[k].y = (double) (u[k][1] + 7);
        in[k].p = (uint32_t) k;
    }
    std::string bytes = file_bytes ("w", in);
    vs_file_put ("c.spoc", bytes);
    vs_run_result r = vs_run (tile_main, {"tile", "-s", "1", "c.spoc"});
    vs_check (r.rc == 0, "tiling succeeds");
    std::vector<int64_t> tile;
    size_t count;
    tile_check (in, "w", false, "c", ".spoc", 3, 1, tile, count);
    for (int a = 0; a < 4; ++a)
        for (int b = 0; b < a; ++b)
            vs_check ((tile[a] == tile[b]) == ((u[a][0] == u[b][0]) & (u[a][1] == u[b][1])), "two points share a tile when they are in the same cell");
    vs_reach ("end");
}
extern "C" void tile_existing ()
{
    point_records in = any_points (1, 0);
    in[0].x = (double) any_int ("gx", 20); in[0].y = (double) any_int ("gy", 20) * 0.25;
    std::string bytes = file_bytes ("w", in), old = any_string ("old", 3), now;
    vs_file_put ("t000.spoc", old); vs_file_put ("in.spoc", bytes);
    int force = (int) vs_choose ("force", 0, 2);
    std::vector<std::string> args {"tile", "-p", "t", "in.spoc"};
    if (force) args.insert (args.begin () + 1, force == 1 ? "-f" : "--force");
    vs_run_result r = vs_run (tile_main, args);
    vs_check (vs_file_get ("t000.spoc", now), "the file is there");
    if (force) { vs_check (r.rc == 0, "force overwrites"); vs_check (diff (now, bytes) == 0, "the file is replaced"); }
    else { vs_check (r.rc != 0, "an existing file is an error"); vs_check (diff (now, old) == 0, "an existing file is kept"); }
    vs_check (vs_file_count () == 2, "no other file appears");
    // conflicting or missing arguments
    static const char *const bad[] = {"--tile-size-x=1", "--tile-size-y=1"};
    r = vs_run (tile_main, {"tile", "-f", "-s", "1", bad[vs_choose ("bad", 0, 1)], "in.spoc"});
    vs_check (r.rc != 0, "exclusive options are reported");
    r = vs_run (tile_main, {"tile", "-f"}, bytes);
    vs_check (r.rc != 0, "standard input needs a prefix");
    vs_check (vs_file_count () == 2, "no other file appears");
    vs_reach ("end");
}
// C18: more points than a 16-bit number can count
extern "C" void merge_many ()
{
    point_records a = any_points (1, 0), b = many_points (0);
    // known locations
    for (auto *v : {&a, &b}) for (size_t k = 0; k < v->size (); ++k) { (*v)[k].x = (double) (k & 255); (*v)[k].y = (double) (k >> 8); (*v)[k].z = 3; }
    vs_file_put ("a", file_bytes ("w", a)); vs_file_put ("b", file_bytes ("w", b));
    const bool swap = vs_choose ("swap", 0, 1) != 0;
    vs_run_result r = vs_run (merge_main, {"merge", swap ? "b" : "a", swap ? "a" : "b"});
    vs_check (r.rc == 0, "merging succeeds");
    spoc_file g = parse (r.out);
    point_records want = swap ? b : a;
    for (auto &p : want) p.p = 0;
    for (auto p : swap ? a : b) { p.p = 1; want.push_back (p); }
    vs_check (diff (g.get_point_records (), want) == 0, "every point of every file, in order, with its identifier");
    vs_reach ("end");
}
// C18: more files than an 8-bit number can count
extern "C" void merge_many_files ()
{
    const size_t files = 258;
    std::vector<std::string> args {"merge"};
    point_records want;
    for (size_t f = 0; f < files; ++f)
    {
        point_records p = any_points (1, 0);
        p[0].x = (double) f; p[0].y = 2; p[0].z = 3; // known locations
        std::string name = "f" + std::to_string (f);
        vs_file_put (name, file_bytes ("w", p));
        args.push_back (name);
        p[0].p = (uint32_t) f;
        want.push_back (p[0]);
    }
    vs_run_result r = vs_run (merge_main, args);
    vs_check (r.rc == 0, "merging succeeds");
    spoc_file g = parse (r.out);
    vs_check (diff (g.get_point_records (), want) == 0, "every point of every file, in order, with its identifier");
    vs_reach ("end");
}
// C19: more points than a 16-bit number can count
extern "C" void diff_many ()
{
    const size_t n = 65536 + 9, f = 3, at = vs_choose ("at", 0, 1) ? n - 1 : 65536;
    point_records a (n);
    for (size_t k = 0; k < n; ++k) { a[k].x = (double) k; a[k].p = (uint32_t) k; }
    point_records b = a;
    const point_record u = any_point (0), v = any_point (0);
    vs_assume ((u.x == u.x) & (u.y == u.y) & (u.z == u.z) & (v.x == v.x) & (v.y == v.y) & (v.z == v.z));
    put_field (a[at], f, field (u, f)); put_field (b[at], f, field (v, f));
    const bool same = fields_equal (a, b, f);
    int rc = run_diff ({}, file_bytes ("w", a), file_bytes ("w", b));
    vs_check ((rc == 0) == same, "the exit code tells whether the files are equal");
    vs_reach (same ? "same" : "different");
}
