// C29: the tool that shows and changes the spatial reference.
#include "apps.h"
#define main srs_main
#include "apps/srs/srs.cpp"
#undef main
static std::string any_arg (const char *name, size_t n)
{
    std::string s = any_string (name, n);
    bool ok = true;
    for (char c : s) ok &= c != 0;
    vs_assume (ok);
    return s;
}
// setting the text: everything else stays
extern "C" void srs_set ()
{
    const size_t shape = vs_choose ("shape", 0, vs_tier () ? 7 : 5), comp = vs_choose ("comp", 0, 1);
    static const size_t N[] = {0, 1, 2, 1, 3, 1, 2, 5}, E[] = {0, 0, 1, 2, 0, 40, 255, 2};
    const size_t n = N[shape], ne = E[shape];
    if (shape == 5 && comp) return;
    if (shape == 6 && comp) return;
    const size_t oldlen = vs_choose ("oldlen", 0, 2), newlen = pick ("newlen", {0, 1, 3});
    const std::string old = any_string ("old", oldlen), text = any_arg ("new", newlen);
    const point_records p = comp ? any_columns (n, ne) : any_points (n, ne);
    const std::string in = comp ? compressed_bytes (old, p) : file_bytes (old, p);
    const int form = (int) ((shape + oldlen + newlen) % 4), mode = (int) ((shape / 2 + oldlen) % 2);
    std::vector<std::string> args;
    if (form == 0) { args.push_back ("-s"); args.push_back (text); }
    else if (form == 1) { args.push_back ("--srs"); args.push_back (text); }
    else if (form == 2) { args.push_back ("--srs=" + text); args.push_back ("-v"); }
    else { args.push_back ("--srs=earlier"); args.push_back ("--verbose"); args.push_back ("-s"); args.push_back (text); }
    tool_result t = tool (srs_main, args, in, mode);
    vs_check (t.rc == 0, "the spatial reference is set");
    if (!comp) vs_check (diff (t.out, file_bytes (text, p)) == 0, "exactly the text is replaced");
    spoc_file f = parse (t.out);
    vs_check (f.get_compressed () == (comp != 0), "the storage form stays");
    vs_check (diff (f.get_wkt (), text) == 0, "the new text is stored");
    vs_check (diff (f.get_point_records (), p) == 0, "the points stay");
    if (!comp) observe_bytes (t.out);
    vs_reach ("end");
}
// a file may be its own output
extern "C" void srs_in_place ()
{
    const point_records p = any_points (2, 1);
    const std::string text = any_arg ("new", vs_choose ("newlen", 0, 2));
    vs_file_put ("a.spoc", file_bytes (any_string ("old", vs_choose ("oldlen", 0, 2)), p));
    vs_run_result r = vs_run (srs_main, {"srs", "-s", text, "a.spoc", "a.spoc"});
    std::string out;
    vs_check (r.rc == 0 && vs_file_get ("a.spoc", out) && diff (out, file_bytes (text, p)) == 0, "a file is changed in place");
    vs_check (vs_file_count () == 1 && r.out.empty (), "nothing else is written");
    vs_reach ("end");
}
// showing the text, of each file in order
extern "C" void srs_get ()
{
    const size_t k = vs_choose ("files", 0, 3);
    const size_t bad = k ? vs_choose ("bad", 0, k) : vs_choose ("bad", 0, 1);
    const int kind = bad ? (int) vs_choose ("kind", 0, 2) : 0;
    const bool verbose = (k + bad + kind) & 1;
    std::vector<std::string> args {"srs"};
    if (verbose) args.push_back ("-v");
    std::string want, in;
    for (size_t j = 0; j < (k ? k : 1); ++j)
    {
        const std::string name = std::string (1, (char) ('a' + j)) + ".spoc";
        const std::string w = any_string ("w", vs_choose ("len", 0, 2 - (j & 1)));
        point_records p = any_points (j, 0);
        if (j & 1) p.assign (1, point_record ());
        std::string b = j & 1 ? compressed_bytes (w, p) : file_bytes (w, p);
        if (bad == j + 1)
        {
            if (kind == 0) { char c = (char) vs_u8 ("sig"); vs_assume (c != 'S'); b[0] = c; }
            else if (kind == 1) b.resize (pick ("cut", {0, 5, 16, 17}));
        }
        else if (!bad || j + 1 < bad) { want += w; want += '\n'; }
        if (k)
        {
            if (bad != j + 1 || kind != 2) vs_file_put (name, b);
            args.push_back (name);
        }
        else in = bad && kind == 2 ? "" : b;
    }
    const size_t before = vs_file_count ();
    vs_run_result r = vs_run (srs_main, args, in);
    vs_check ((r.rc == 0) == (bad == 0), "exactly a file that cannot be read is an error");
    vs_check (diff (r.out, want) == 0, "the texts of the files in order");
    if (bad) vs_check (!r.err.empty (), "there is a message");
    vs_check (vs_file_count () == before, "no file appears");
    vs_reach (bad ? "bad" : "good");
}
// wrong uses
extern "C" void srs_errors ()
{
    const point_records p = any_points (1, 0);
    const std::string good = file_bytes ("w", p);
    const int kind = (int) vs_choose ("kind", 0, 5);
    std::vector<std::string> args {"srs", "-s", "new"};
    vs_file_put ("a.spoc", good); vs_file_put ("b.spoc", good);
    std::string in, b = good;
    if (kind == 0) args.push_back ("a.spoc");
    else if (kind == 1) { args.push_back ("a.spoc"); args.push_back ("b.spoc"); args.push_back ("c.spoc"); }
    else if (kind == 2) { args.push_back ("missing.spoc"); args.push_back ("c.spoc"); }
    else if (kind == 3) { b.resize (vs_choose ("cut", 0, good.size () - 1)); vs_file_put ("a.spoc", b); args.push_back ("a.spoc"); args.push_back ("c.spoc"); }
    else if (kind == 4) { in = good; in.resize (vs_choose ("cut", 0, good.size () - 1)); }
    else { args.push_back ("a.spoc"); args.push_back ("none/"); }
    vs_run_result r = vs_run (srs_main, args, in);
    vs_check (r.rc != 0 && !r.err.empty () && r.out.empty (), "a wrong use is an error without output");
    std::string a, c;
    vs_check (vs_file_get ("a.spoc", a) && diff (a, b) == 0 && vs_file_get ("b.spoc", c) && diff (c, good) == 0 && vs_file_count () == 2, "the files are left alone");
    vs_reach ("end");
}
// texts at the limit of the header's length field
extern "C" void srs_long ()
{
    const point_records p = any_points (1, 0);
    const size_t n = pick ("len", {255, 256, 32768, 65535, 65536, 70000});
    std::string text (n, 't');
    for (size_t k : {size_t (0), n / 2, n - 1}) { char c = (char) vs_u8 ("c"); vs_assume (c != 0); text[k] = c; }
    tool_result t = tool (srs_main, {"-s", text}, file_bytes ("w", p), 1);
    if (n < 65536) vs_check (t.rc == 0 && diff (t.out, file_bytes (text, p)) == 0, "long texts are stored");
    else vs_check (t.rc != 0 && t.out.empty () && !t.err.empty (), "a text that does not fit is an error");
    vs_reach ("end");
}
