// C31: a device that refuses to take all bytes, at every position.
#include "apps.h"
#include "grid.h"
#define main transform_main
#include "apps/transform/transform.cpp"
#undef main
#define main filter_main
#include "apps/filter/filter.cpp"
#undef main
#define main tool_main
#include "apps/tool/tool.cpp"
#undef main
#define main merge_main
#include "apps/merge/merge.cpp"
#undef main
#define main tile_main
#include "apps/tile/tile.cpp"
#undef main
#define main srs_main
#include "apps/srs/srs.cpp"
#undef main
#define main compress_main
#include "apps/compress/compress.cpp"
#undef main
#define main decompress_main
#include "apps/decompress/decompress.cpp"
#undef main
#define main info_main
#include "apps/info/info.cpp"
#undef main
static const uint64_t ENDLESS = ~0ull;
static point_records some_points (size_t n, size_t ne)
{
    point_records p = any_points (n, ne);
    bool ok = true;
    for (auto &q : p)
    {
        // content in every column
        ok &= (vs_bits (q.x) & 0xff) != 0; ok &= (vs_bits (q.y) & 0xff) != 0; ok &= (vs_bits (q.z) & 0xff) != 0;
        ok &= ((q.c & 0xff) != 0) & ((q.p & 0xff) != 0) & ((q.i & 0xff) != 0) & ((q.r & 0xff) != 0) & ((q.g & 0xff) != 0) & ((q.b & 0xff) != 0);
        for (auto e : q.extra) ok &= (e & 0xff) != 0;
    }
    vs_assume (ok);
    return p;
}
// the tools that write one point cloud, into a file and to stdout
extern "C" void tool_writes ()
{
    static const struct { vs_main_fn f; const char *a, *b; int comp; } T[] = {
        {transform_main, "--add-x=0", "-v", 0}, {transform_main, "--replace=c,1,2", "-v", 0},
        {filter_main, "--keep-class=7", "-v", 0}, {filter_main, "--unique-xyz", "-v", 1},
        {tool_main, "--resize-extra=2", "-v", 0}, {tool_main, "--recenter-xy", "-v", 1},
        {srs_main, "--srs=new", "-v", 0}, {srs_main, "--srs=", "-v", 1},
        {compress_main, "-v", "--verbose", 0}, {decompress_main, "-v", "--verbose", 1},
        {merge_main, "-v", "--verbose", 0}, {merge_main, "-v", "--verbose", 1},
    };
    const size_t k = vs_choose ("tool", 0, sizeof T / sizeof *T - 1);
    const bool merge = T[k].f == merge_main;
    const int mode = merge ? 0 : (int) vs_choose ("mode", 0, 1);
    point_records p = some_points (1, 1);
    if (T[k].f == filter_main && k == 2) p[0].c = 7;
    const std::string in = T[k].comp ? compressed_bytes ("w", p) : file_bytes ("w", p);
    std::string want;
    for (int pass = 0; pass < 2; ++pass)
    {
        std::vector<std::string> args {T[k].a, T[k].b};
        uint64_t room = ENDLESS;
        // around the end, or anywhere before it
        if (pass)
        {
            const uint64_t total = want.size ();
            room = vs_choose ("room", 0, total + 1);
            if (!vs_tier ()) vs_assume ((room < 30) | (room + 12 > total) | (room % 7 == 0));
            vs_disk_limit (room);
        }
        int rc; std::string out, err;
        if (merge)
        {
            vs_disk_limit (ENDLESS);
            vs_file_put ("a.spoc", in); vs_file_put ("b.spoc", in);
            vs_disk_limit (room);
            vs_run_result r = vs_run (merge_main, {"merge", T[k].a, "a.spoc", "b.spoc"});
            rc = r.rc; err = r.err; out = r.out;
        }
        else if (mode == 0)
        {
            vs_disk_limit (ENDLESS);
            vs_file_put ("in.spoc", in);
            vs_disk_limit (room);
            vs_run_result r = vs_run (T[k].f, {"tool", T[k].a, T[k].b, "in.spoc", "out.spoc"});
            rc = r.rc; err = r.err;
            vs_file_get ("out.spoc", out);
        }
        else
        {
            vs_run_result r = vs_run (T[k].f, {"tool", T[k].a, T[k].b}, in);
            rc = r.rc; err = r.err; out = r.out;
        }
        vs_disk_limit (ENDLESS);
        if (!pass) { vs_check (rc == 0 && !out.empty (), "there is output when there is room"); want = out; vs_file_remove ("out.spoc"); continue; }
        if (room < want.size ()) { vs_check (rc != 0 && !err.empty (), "output that could not be written completely is an error"); vs_reach ("failed"); }
        else { vs_check (rc == 0 && diff (out, want) == 0, "success means that all bytes were written"); vs_reach ("written"); }
    }
}
// the texts of the other tools
extern "C" void text_writes ()
{
    const size_t k = vs_choose ("tool", 0, 4);
    const point_records p = k < 3 ? some_points (2, 1) : point_records (2, point_record (1));
    const std::string in = file_bytes ("wkt", p);
    std::vector<std::string> args {"tool"};
    vs_main_fn f = tool_main;
    if (k == 0) args.push_back ("--get-field=c");
    else if (k == 1) args.push_back ("-ge0");
    else if (k == 2) f = srs_main;
    else if (k == 3) { f = info_main; args.push_back ("--header-info"); }
    else { f = info_main; args.push_back ("-j"); args.push_back ("--header-info"); args.push_back ("-c"); }
    const bool named = vs_choose ("named", 0, 1);
    if (named) { vs_file_put ("in.spoc", in); args.push_back ("in.spoc"); }
    vs_run_result r = vs_run (f, args, in);
    vs_check (r.rc == 0 && !r.out.empty (), "there is output when there is room");
    const uint64_t total = r.out.size (), room = vs_choose ("room", 0, 40);
    const uint64_t limit = room < 20 ? room : total + room > 39 ? total + room - 39 : 0;
    vs_disk_limit (limit);
    vs_run_result s = vs_run (f, args, in);
    vs_disk_limit (ENDLESS);
    if (limit < total) { vs_check (s.rc != 0 && !s.err.empty (), "text that could not be written completely is an error"); vs_reach ("failed"); }
    else { vs_check (s.rc == 0 && diff (s.out, r.out) == 0, "success means that all bytes were written"); vs_reach ("written"); }
}
// tiles: any of them may be the one that does not fit
extern "C" void tile_writes ()
{
    point_records p = some_points (4, 0);
    for (size_t k = 0; k < 4; ++k) { p[k].x = k >= 1; p[k].y = 0; }
    const int comp = (int) vs_choose ("comp", 0, 1);
    const std::string in = comp ? compressed_bytes ("", p) : file_bytes ("", p);
    vs_run_result r = vs_run (tile_main, {"tile", "-p", "t", "--digits=1", "--tiles=2"}, in);
    const std::string ext = comp ? ".zpoc" : ".spoc";
    std::string a, b;
    size_t n = 0, total = 0;
    for (int k = 0; k < 4; ++k)
    {
        std::string s;
        if (vs_file_get ("t" + std::to_string (k) + ext, s)) { ++n; if (s.size () > total) total = s.size (); vs_file_remove ("t" + std::to_string (k) + ext); }
    }
    vs_check (r.rc == 0 && n == 2, "two tiles are written");
    const uint64_t room = vs_choose ("room", 0, total + 1);
    if (!vs_tier ()) vs_assume ((room < 25) | (room + 8 > total) | (room % 9 == 0));
    vs_disk_limit (room);
    vs_run_result s = vs_run (tile_main, {"tile", "-p", "t", "--digits=1", "--tiles=2"}, in);
    vs_disk_limit (ENDLESS);
    if (room < total) { vs_check (s.rc != 0 && !s.err.empty (), "a tile that could not be written completely is an error"); vs_reach ("failed"); }
    else { vs_check (s.rc == 0, "tiles are written when there is room"); vs_reach ("written"); }
}
// the library: a device that takes 'room' bytes and buffers none, some or all of them
struct device : std::streambuf
{
    std::string data, pending; size_t room, buffer; bool broken = false;
    device (size_t r, size_t b) : room (r), buffer (b) {}
    bool out ()
    {
        if (data.size () + pending.size () > room) { pending.resize (room - data.size ()); broken = true; }
        data += pending; pending.clear ();
        return !broken;
    }
    std::streamsize xsputn (const char *p, std::streamsize n) override { pending.append (p, n); return pending.size () < buffer || out () ? n : 0; }
    int_type overflow (int_type c) override { if (c == EOF) return 0; pending += (char) c; return pending.size () < buffer || out () ? c : EOF; }
    int sync () override { return out () ? 0 : -1; }
};
extern "C" void library_writes ()
{
    const int comp = (int) vs_choose ("comp", 0, 1), what = (int) vs_choose ("what", 0, 4);
    if (what != 0 && comp) return;
    const size_t n = what == 0 ? vs_choose ("n", 0, 2) : 1, ne = vs_choose ("ne", 0, 1);
    const point_records p = some_points (n, ne);
    const spoc_file f ("w", comp != 0, p);
    std::string want;
    for (int pass = 0; pass < 2; ++pass)
    {
        size_t room = 1 << 20, buffer = 1;
        if (pass)
        {
            room = vs_choose ("room", 0, want.size ());
            if (!vs_tier ()) vs_assume ((room < 24) | (room + 10 > want.size ()) | (room % 11 == 0));
            buffer = pick ("buffer", {1, 16, 1 << 20});
        }
        device d (room, buffer);
        std::ostream s (&d);
        bool thrown = false;
        try
        {
            if (what == 0) spoc::io::write_spoc_file (s, f);
            else if (what == 1) spoc::io::write_spoc_file_uncompressed (s, f);
            else if (what == 2) spoc::point_record::write_point_record (s, p[0]);
            else if (what == 3) { spoc::header::write_header (s, f.get_header ()); }
            else { spoc_file g (f); g.set_compressed (true); spoc::io::write_spoc_file_compressed (s, g); }
        }
        catch (const std::exception &) { thrown = true; }
        if (!pass) { d.out (); want = d.data; vs_check (!thrown && !want.empty () && (bool) s, "the device takes everything"); continue; }
        if (room < want.size ()) { vs_check (thrown || !s, "a device that does not take everything is reported"); vs_reach ("failed"); }
        else { vs_check (!thrown && (bool) s && diff (d.data, want) == 0, "success means that all bytes were taken"); vs_reach ("written"); }
    }
}
// outputs that need more than one buffer
extern "C" void large_writes ()
{
    const int comp = (int) vs_choose ("comp", 0, 1);
    point_records p (230, point_record (1));
    for (size_t k = 0; k < p.size (); ++k) { p[k].x = (double) k; p[k].extra[0] = k + 1; }
    p[229].y = vs_double ("y");
    const spoc_file f ("w", comp != 0, p);
    std::ostringstream s;
    spoc::io::write_spoc_file (s, f);
    const std::string want = s.str ();
    static const size_t CUT[] = {0, 1, 4095, 4096, 4097, 8190, 8191, 8192, 8193};
    const size_t k = vs_choose ("room", 0, 12), room = k < 9 ? CUT[k] : want.size () + k - 11;
    vs_file_put ("in.spoc", want);
    const bool named = vs_choose ("named", 0, 1);
    vs_disk_limit (room);
    vs_run_result r = vs_run (srs_main, named ? std::vector<std::string> {"srs", "-sw", "in.spoc", "out.spoc"} : std::vector<std::string> {"srs", "-sw"}, want);
    vs_disk_limit (ENDLESS);
    std::string out = r.out;
    if (named) vs_file_get ("out.spoc", out);
    if (room < want.size ()) { vs_check (r.rc != 0 && !r.err.empty (), "output that could not be written completely is an error"); vs_reach ("failed"); }
    else { vs_check (r.rc == 0 && diff (out, want) == 0, "success means that all bytes were written"); vs_reach ("written"); }
}
// C27: every tool, alone and with a team of threads whose accesses are compared
extern "C" void tool_loops ()
{
    static const struct { vs_main_fn f; const char *a, *b; int comp; } T[] = {
        {transform_main, "--add-x=1", "--rotate-z=30", 0}, {transform_main, "--replace=c,1,2", "--copy-field=c,p", 0},
        {transform_main, "--quantize=1", "--gaussian-noise=1", 0}, {transform_main, "--scale-z=2", "--set=i,3", 0},
        {filter_main, "--keep-class=2", "-v", 0}, {filter_main, "--remove-class=2", "-v", 1}, {filter_main, "--unique-xyz", "-v", 1},
        {filter_main, "--subsample=1.5", "-v", 0}, {filter_main, "--remove-coords=x > 1", "-v", 0},
        {tool_main, "--resize-extra=2", "-v", 0}, {tool_main, "--recenter-xy", "-v", 1}, {tool_main, "--recenter-xyz", "-v", 0},
        {tool_main, "--subtract-min-xyz", "-v", 0}, {tool_main, "--subtract-min-xy", "-v", 0}, {tool_main, "--get-field=x", "-v", 0},
        {tool_main, "--upsample-classifications=b.spoc", "--resolution=1", 0},
        {srs_main, "--srs=new", "-v", 1}, {compress_main, "-v", "--verbose", 0}, {decompress_main, "-v", "--verbose", 1},
        {info_main, "--metric-info", "-v", 0}, {info_main, "--quartiles", "-j", 1}, {info_main, "--classification-info", "--compact", 0},
        {merge_main, "a.spoc", "b.spoc", 0}, {tile_main, "--tiles=4", "--prefix=t", 0},
    };
    const size_t k = vs_choose ("tool", 0, sizeof T / sizeof *T - 1), n = 4;
    point_records p (n, point_record (1));
    for (size_t j = 0; j < n; ++j)
    {
        p[j].x = (double) (j & 1) * 2; p[j].y = (double) (j & 2); p[j].z = (double) j;
        p[j].c = 2 + (j & 1); p[j].i = (uint16_t) (j + 1); p[j].extra[0] = 7 * j + 1;
    }
    p[3].x += (double) (vs_u8 ("x") & 1) * 0.25;
    p[1].p = vs_u32 ("p"); p[2].g = vs_u16 ("g");
    vs_assume (((p[1].p & 0xff) != 0) & ((p[2].g & 0xff) != 0));
    const std::string in = T[k].comp ? compressed_bytes ("w", p) : file_bytes ("w", p);
    vs_file_put ("a.spoc", in); vs_file_put ("b.spoc", in);
    vs_rng_mode (0);
    std::string out[2]; int rc[2];
    for (int pass = 0; pass < 2; ++pass)
    {
        if (pass) { vs_threads ((int) pick ("team", {2, 4, 9})); vs_race (1); }
        vs_run_result r = T[k].f == merge_main ? vs_run (T[k].f, {"tool", T[k].a, T[k].b}) : T[k].f == tile_main ? vs_run (T[k].f, {"tool", "-f", "--digits=1", T[k].a, T[k].b, "a.spoc"}) : vs_run (T[k].f, {"tool", T[k].a, T[k].b}, in);
        vs_race (0); vs_threads (1);
        rc[pass] = r.rc; out[pass] = r.out;
        for (int j = 0; j < 8; ++j) { std::string s; if (vs_file_get ("t" + std::to_string (j) + ".spoc", s)) out[pass] += s; }
    }
    vs_check (rc[0] == rc[1] && diff (out[0], out[1]) == 0, "the output does not depend on the threads");
    vs_check (!out[0].empty (), "there is output");
    vs_reach ("end");
}
