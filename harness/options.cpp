// C12: the options of every tool, as the manual pages (apps/*/*.1.md) list them.
// C30: arguments that are not of the documented form.
#include "alltools.h"
struct option_doc { const char *name; char letter; const char *arg; std::vector<std::string> with; };
struct tool_doc { const char *name; vs_main_fn run; int operands; bool out; std::vector<option_doc> options; std::vector<std::string> base; };
// operands: how many files it takes (a negative number: at least that many); out: the last one is the output
static const std::vector<tool_doc> &tools ()
{
    static const std::vector<tool_doc> T {
        {"transform", transform_main, 2, true, {
            {"random-seed", 'a', "5", {"--uniform-noise-x=1"}},
            {"add-x", 0, "1.5", {}}, {"add-y", 0, "-1", {}}, {"add-z", 0, "1e1", {}}, {"copy-field", 0, "c,e0", {}},
            {"gaussian-noise", 0, "1", {}}, {"gaussian-noise-x", 0, "1", {}}, {"gaussian-noise-y", 0, "2", {}}, {"gaussian-noise-z", 0, "1", {}},
            {"quantize-xyz", 0, "0.5", {}}, {"replace", 0, "c,1,2", {}}, {"replace-not", 0, "e0,1,2,3", {}},
            {"rotate-x", 0, "90", {}}, {"rotate-y", 0, "90", {}}, {"rotate-z", 0, "90", {}},
            {"scale-x", 0, "2", {}}, {"scale-y", 0, "2", {}}, {"scale-z", 0, "2", {}}, {"set", 0, "p,7", {}},
            {"uniform-noise", 0, "1", {}}, {"uniform-noise-x", 0, "1", {}}, {"uniform-noise-y", 0, "1", {}}, {"uniform-noise-z", 0, "1", {}}}, {"--set=i,3"}},
        {"filter", filter_main, 2, true, {
            {"keep-class", 'k', "5", {}}, {"remove-class", 'r', "5", {}}, {"random-seed", 'a', "3", {"--unique-xyz"}},
            {"subsample", 's', "1.5", {}}, {"unique-xyz", 'u', nullptr, {}}, {"remove-coords", 'c', "x > 1", {}}}, {}},
        {"tool", tool_main, 2, true, {
            {"get-field", 'g', "c", {}}, {"recenter-xy", 0, nullptr, {}}, {"recenter-xyz", 0, nullptr, {}}, {"resize-extra", 0, "2", {}},
            {"set-field", 's', "p", {"--field-filename=f.txt"}}, {"field-filename", 'f', "f.txt", {"--set-field=p"}},
            {"subtract-min-xy", 0, nullptr, {}}, {"subtract-min-xyz", 0, nullptr, {}},
            {"upsample-classifications", 0, "in2.spoc", {"--resolution=1"}}, {"resolution", 0, "1", {"--upsample-classifications=in2.spoc"}}}, {"--recenter-xy"}},
        {"info", info_main, -1, false, {
            {"json", 'j', nullptr, {}}, {"header-info", 'a', nullptr, {}}, {"summary-info", 's', nullptr, {}}, {"quartiles", 'q', nullptr, {}},
            {"classification-info", 'l', nullptr, {}}, {"metric-info", 'm', nullptr, {}}, {"compact", 'c', nullptr, {}}}, {}},
        {"merge", merge_main, -2, false, {{"quiet", 'q', nullptr, {}}, {"point-id", 'p', "4", {}}}, {}},
        {"tile", tile_main, 1, false, {
            {"force", 'f', nullptr, {"-t", "1"}}, {"tiles", 't', "1", {}}, {"digits", 'd', "2", {"-t", "1"}}, {"tile-size", 's', "100", {}},
            {"tile-size-x", 'x', "100", {}}, {"tile-size-y", 'y', "100", {}}, {"prefix", 'p', "q", {"-t", "1"}}}, {"--tiles=1"}},
        {"srs", srs_main, 2, true, {{"srs", 's', "text", {}}}, {"-s", "text"}},
        {"diff", diff_main, 2, false, {{"header-only", 'a', nullptr, {}}, {"data-only", 'd', nullptr, {}}, {"field", 'f', "xc", {}}, {"reverse", 'r', nullptr, {}}}, {}},
        {"compress", compress_main, 2, true, {}, {}},
        {"decompress", decompress_main, 2, true, {}, {}}};
    return T;
}
static const option_doc COMMON[] = {{"help", 'h', nullptr, {}}, {"verbose", 'v', nullptr, {}}, {"version", 'e', nullptr, {}}};
// everything a run leaves behind
struct outcome { int rc; std::string out, err, files; };
static outcome observe_run (const tool_doc &t, const std::vector<std::string> &args, const std::string &in, const std::string &in2, const std::string &old = std::string ())
{
    static const char *const NAMES[] = {"out.spoc", "in000.spoc", "in00.spoc", "q000.spoc"};
    vs_file_put ("in.spoc", in); vs_file_put ("in2.spoc", in2); vs_file_put ("f.txt", "11\n12\n");
    if (!old.empty ()) vs_file_put ("out.spoc", old);
    std::vector<std::string> a {t.name};
    a.insert (a.end (), args.begin (), args.end ());
    vs_run_result r = vs_run (t.run, a);
    outcome o;
    o.rc = r.rc; o.out = r.out; o.err = r.err;
    std::string b;
    vs_check (vs_file_get ("in.spoc", b) && diff (b, in) == 0, "the input is left alone");
    vs_check (vs_file_get ("in2.spoc", b) && diff (b, in2) == 0, "the second input is left alone");
    vs_file_remove ("in.spoc"); vs_file_remove ("in2.spoc"); vs_file_remove ("f.txt");
    for (const char *n : NAMES)
        if (vs_file_get (n, b)) { o.files += n; o.files += ':'; o.files += b; vs_file_remove (n); }
    vs_check (vs_file_count () == 0, "no other file appears");
    return o;
}
static std::vector<std::string> operands (const tool_doc &t)
{
    if (t.operands == 1 || t.operands == -1) return {"in.spoc"};
    return {"in.spoc", t.out ? "out.spoc" : "in2.spoc"};
}
static std::vector<std::string> operator+ (std::vector<std::string> a, const std::vector<std::string> &b) { a.insert (a.end (), b.begin (), b.end ()); return a; }
static std::vector<std::string> form (const option_doc &o, int f)
{
    const std::string l = std::string ("--") + o.name, s = std::string ("-") + o.letter;
    if (!o.arg) return {f == 0 || !o.letter ? l : s};
    switch (f)
    {
        case 0: return {l + "=" + o.arg};
        case 1: return {l, o.arg};
        case 2: return {s + o.arg};
        default: return {s, o.arg};
    }
}
static point_records some_points (size_t n, bool cls = true)
{
    point_records p;
    for (size_t k = 0; k < n; ++k)
    {
        point_record q (1);
        q.x = 1.25 + 3 * k; q.y = -2.5 + k; q.z = 3 - 2.0 * k;
        q.c = cls ? vs_u32 ("c") : 2 + 3 * k; q.p = vs_u32 ("p"); q.i = vs_u16 ("i"); q.r = 5 + k; q.g = 0; q.b = 7; q.extra[0] = vs_u64 ("e");
        p.push_back (q);
    }
    return p;
}
// each documented option is accepted in each of its forms, and the forms mean the same
extern "C" void option_forms ()
{
    const size_t t = vs_choose ("tool", 0, tools ().size () - 1);
    const tool_doc &T = tools ()[t];
    const size_t no = T.options.size ();
    if (!no) return;
    const size_t k = vs_choose ("option", 0, no - 1);
    const option_doc &o = T.options[k];
    vs_rng_mode (0);
    const bool fixed = T.run == info_main || T.run == filter_main || T.run == diff_main;
    const point_records p = some_points (2, !fixed);
    const std::string in = file_bytes ("w", p), in2 = in;
    const std::vector<std::string> files = operands (T);
    const outcome a = observe_run (T, form (o, 0) + o.with + files, in, in2);
    vs_check (T.run == diff_main ? a.err.empty () : a.rc == 0, "a documented option is accepted in its long form");
    const outcome b = observe_run (T, o.with + files + form (o, 0), in, in2);
    vs_check (b.rc == a.rc && diff (b.out, a.out) == 0 && diff (b.files, a.files) == 0, "an option may follow the file names");
    for (int f = 1; f < 4; ++f)
    {
        if (f > 1 && !o.letter) continue;
        if (!o.arg && f != 2) continue;
        const outcome c = observe_run (T, o.with + form (o, f) + files, in, in2);
        vs_check (c.rc == a.rc && diff (c.out, a.out) == 0 && diff (c.files, a.files) == 0, "every form of an option means the same");
    }
    const outcome v = observe_run (T, std::vector<std::string> {k & 1 ? "--verbose" : "-v"} + form (o, 0) + o.with + files, in, in2);
    vs_check (v.rc == a.rc && diff (v.out, a.out) == 0 && diff (v.files, a.files) == 0, "verbose output goes to stderr only and changes nothing");
    if (o.letter)
    {
        // short options may be combined
        std::vector<std::string> g = form (o, 3);
        g[0] = std::string ("-v") + g[0].substr (1);
        const outcome c = observe_run (T, g + o.with + files, in, in2);
        vs_check (c.rc == a.rc && diff (c.out, a.out) == 0 && diff (c.files, a.files) == 0, "short options combine");
    }
    if (T.run == info_main)
    {
        const outcome n = observe_run (T, files, in, in2), d = observe_run (T, form (o, 0) + form (o, 2) + files, in, in2);
        vs_check (n.rc == 0 && d.rc == 0 && diff (n.out, d.out) == 0, "an option given twice toggles back");
    }
    vs_reach ("end");
}
// help and version do nothing else
extern "C" void help_and_version ()
{
    const tool_doc &T = tools ()[vs_choose ("tool", 0, tools ().size () - 1)];
    const size_t what = vs_choose ("what", 0, 3), place = vs_choose ("place", 0, 3);
    const std::string in = any_string ("in", 20), in2 = any_string ("in2", 4), old = any_string ("old", 8);
    const std::string flag = what == 0 ? "-h" : what == 1 ? "--help" : what == 2 ? "-e" : "--version";
    std::vector<std::string> args;
    if (place == 0) args = {flag};
    else if (place == 1) args = std::vector<std::string> {flag} + operands (T);
    else if (place == 2) args = T.base + operands (T) + std::vector<std::string> {flag};
    else args = std::vector<std::string> {what & 1 ? "--verbose" : "-v", flag} + T.base;
    const outcome o = observe_run (T, args, in, in2, old);
    vs_check (o.rc == 0, "help and version succeed");
    vs_check (diff (o.files, "out.spoc:" + old) == 0, "no file is touched");
    if (what < 2)
    {
        vs_check (o.out.empty (), "help goes to stderr");
        auto mentions = [&] (const option_doc &d)
        {
            vs_check (o.err.find (std::string ("--") + d.name) != std::string::npos, "help lists every option");
            if (d.letter) vs_check (o.err.find (std::string ("-") + d.letter) != std::string::npos, "help lists every short option");
        };
        for (const auto &d : COMMON) mentions (d);
        for (const auto &d : T.options) mentions (d);
    }
    else
    {
        std::string d;
        for (char c : o.out) if ((c >= '0' && c <= '9') || c == '.') d += c;
        vs_check (d == std::to_string ((int) spoc::MAJOR_VERSION) + "." + std::to_string ((int) spoc::MINOR_VERSION), "the version is printed");
    }
    vs_reach ("end");
}
static void refused (const tool_doc &T, const std::vector<std::string> &args, const std::string &in, const char *what)
{
    const outcome o = observe_run (T, args, in, in);
    vs_check (o.rc != 0, what);
    vs_check (!o.err.empty (), "an error has a message");
    vs_check (o.out.empty () && o.files.empty (), "nothing is written after an error on the command line");
}
// options that do not exist
extern "C" void unknown_options ()
{
    const tool_doc &T = tools ()[vs_choose ("tool", 0, tools ().size () - 1)];
    const std::string in = file_bytes ("", some_points (1));
    const size_t kind = vs_choose ("kind", 0, 2);
    std::vector<std::string> bad;
    if (kind == 0)
    {
        // a letter
        const char c = (char) vs_u8 ("letter");
        bool ok = (c != 0) & (c != '-') & (c != ';') & (c != ':');
        for (const auto &d : COMMON) ok &= c != d.letter;
        for (const auto &d : T.options) ok &= c != d.letter;
        vs_assume (ok);
        bad = {std::string ("-") + c};
    }
    else if (kind == 1)
    {
        // a word of two or three letters that no option starts with
        const size_t n = vs_choose ("length", 2, 3);
        std::string w = "--";
        bool ok = true;
        for (size_t k = 0; k < n; ++k) { const char c = (char) vs_u8 ("word"); ok &= (c >= 'a') & (c <= 'z'); w += c; }
        auto differs = [&] (const option_doc &d)
        {
            bool same = true;
            for (size_t k = 0; k < n && (k == 0 || d.name[k - 1]); ++k) same &= d.name[k] == w[2 + k];
            return !same;
        };
        for (const auto &d : COMMON) ok &= differs (d);
        for (const auto &d : T.options) ok &= differs (d);
        vs_assume (ok);
        bad = {w};
    }
    else
    {
        // an option with more text behind its name
        const size_t k = vs_choose ("option", 0, 2 + T.options.size ());
        const char c = (char) vs_u8 ("letter");
        vs_assume ((c >= 'a') & (c <= 'z'));
        std::string w = std::string ("--") + (k < 3 ? COMMON[k] : T.options[k - 3]).name + c;
        bad = {w};
    }
    const bool after = vs_choose ("after", 0, 1);
    if (after) bad = T.base + operands (T) + bad; else bad = bad + T.base + operands (T);
    refused (T, bad, in, "an unknown option is an error");
    vs_reach ("end");
}
// missing and surplus arguments
extern "C" void missing_arguments ()
{
    const tool_doc &T = tools ()[vs_choose ("tool", 0, tools ().size () - 1)];
    const std::string in = file_bytes ("", some_points (1));
    const size_t k = vs_choose ("option", 0, 2 + T.options.size ());
    const option_doc &o = k < 3 ? COMMON[k] : T.options[k - 3];
    if (o.arg)
    {
        refused (T, o.with + operands (T) + std::vector<std::string> {std::string ("--") + o.name}, in, "an option without its argument is an error");
        if (o.letter) refused (T, o.with + operands (T) + std::vector<std::string> {std::string ("-") + o.letter}, in, "a short option without its argument is an error");
    }
    else
    {
        const char c = (char) vs_u8 ("letter");
        vs_assume (c != 0);
        refused (T, T.base + operands (T) + std::vector<std::string> {std::string ("--") + o.name + "=" + c}, in, "an option that takes no argument refuses one");
    }
    vs_reach ("end");
}
// combinations that the tools cannot serve
extern "C" void conflicts ()
{
    vs_rng_mode (0);
    const std::string in = file_bytes ("", some_points (2, false));
    const size_t kind = vs_choose ("kind", 0, 8);
    const std::vector<tool_doc> &T = tools ();
    if (kind == 0)
    {
        // too many operands
        const tool_doc &t = T[vs_choose ("tool", 0, T.size () - 1)];
        if (t.operands < 0) return;
        std::vector<std::string> extra (vs_choose ("extra", 1, 2), "more.spoc");
        refused (t, t.base + operands (t) + extra, in, "too many operands are an error");
    }
    else if (kind == 1)
    {
        // two commands of spoc_tool
        const tool_doc &t = T[2];
        size_t a = vs_choose ("first", 0, 9), b = vs_choose ("second", 0, 9);
        if (a == 5 || a == 9 || b == 5 || b == 9) return;
        refused (t, form (t.options[a], 0) + form (t.options[b], 1) + t.options[a].with + operands (t), in, "two commands are an error");
    }
    else if (kind == 2)
    {
        // no command
        refused (T[vs_choose ("tool", 0, 1) * 2], {"in.spoc", "out.spoc"}, in, "a command is required");
    }
    else if (kind == 3)
    {
        // a command without the option that it needs
        static const char *const C[] = {"--set-field=c", "--upsample-classifications=in2.spoc"};
        refused (T[2], {C[vs_choose ("command", 0, 1)], "in.spoc", "out.spoc"}, in, "a command without its companion is an error");
    }
    else if (kind == 4)
    {
        // diff compares one thing
        static const char *const C[] = {"-a", "--data-only", "-fx"};
        const size_t w = vs_choose ("which", 1, 7);
        if (w == 1 || w == 2 || w == 4) return;
        std::vector<std::string> v;
        for (size_t k = 0; k < 3; ++k) if (w >> k & 1) v.push_back (C[k]);
        if (vs_choose ("reverse", 0, 1)) v.push_back ("-r");
        refused (T[7], v + operands (T[7]), in, "only one of the ways to compare");
    }
    else if (kind == 5)
    {
        // too few operands
        static const size_t t[] = {4, 7};
        const tool_doc &m = T[t[vs_choose ("tool", 0, 1)]];
        std::vector<std::string> v (vs_choose ("files", 0, 1), "in.spoc");
        refused (m, v, in, "too few operands are an error");
    }
    else if (kind == 6)
    {
        // two ways to give a tile size
        static const char *const C[] = {"--tile-size-x=2", "--tile-size-y=2", "-x2", "-y2"};
        refused (T[5], {"--tile-size=1", C[vs_choose ("other", 0, 3)], "in.spoc"}, in, "two tile sizes are an error");
    }
    else if (kind == 7)
    {
        // standard input has no name to derive a prefix from
        vs_run_result r = vs_run (tile_main, {"tile", "-t", "1"}, in);
        vs_check (r.rc != 0 && !r.err.empty () && vs_file_count () == 0, "a prefix is required with standard input");
    }
    else
    {
        // setting a spatial reference needs one input and one output
        std::vector<std::string> v {"--srs=x", "in.spoc"};
        if (vs_choose ("three", 0, 1)) { v.push_back ("in2.spoc"); v.push_back ("out.spoc"); }
        refused (T[6], v, in, "one input and one output");
    }
    vs_reach ("end");
}
// ---------------------------------------------------------------- C30
// the text of a number, read by the grammar of the manual pages
enum verdict { REFUSED, ACCEPTED, OPEN };
static bool digit (char c) { return c >= '0' && c <= '9'; }
static std::string any_text (const char *name, size_t n)
{
    std::string s = any_string (name, n);
    bool ok = true;
    for (char c : s) ok &= c != 0;
    if (n)
    {
        // leading space and explicit plus signs are left open
        const char c = s[0];
        ok &= (c != ' ') & (c != '+') & !((c >= 9) & (c <= 13));
    }
    vs_assume (ok);
    return s;
}
static verdict decimal (const std::string &t, char tail, double &v)
{
    static const double P[] = {1, 10, 100, 1000, 10000, 100000, 1e6};
    size_t i = 0, nd = 0, frac = 0;
    uint64_t m = 0;
    auto at = [&] (size_t k) { return k < t.size () ? t[k] : (char) 0; };
    const bool neg = at (0) == '-';
    if (neg) ++i;
    const size_t start = i;
    while (digit (at (i))) { m = m * 10 + (uint64_t) (at (i) - '0'); ++nd; ++i; }
    // hexadecimal numbers, infinities and NaNs are left open
    if (nd == 1 && at (start) == '0' && (at (i) == 'x' || at (i) == 'X')) return OPEN;
    const char f = at (start);
    if ((f == 'i') | (f == 'I') | (f == 'n') | (f == 'N')) return OPEN;
    if (at (i) == '.')
    {
        size_t j = i + 1;
        while (digit (at (j))) { m = m * 10 + (uint64_t) (at (j) - '0'); ++nd; ++frac; ++j; }
        i = j;
    }
    if (!nd) return REFUSED;
    const double d = frac ? (double) m / P[frac] : (double) m;
    v = neg ? -d : d;
    if (at (i) == 'e' || at (i) == 'E')
    {
        const size_t k = i + 1 + (at (i + 1) == '-' || at (i + 1) == '+');
        if (digit (at (k))) return OPEN;
    }
    if (i == t.size ()) return ACCEPTED;
    return tail && at (i) == tail ? OPEN : REFUSED;
}
static verdict integer (const std::string &t, char tail, int64_t &v)
{
    size_t i = 0, nd = 0;
    auto at = [&] (size_t k) { return k < t.size () ? t[k] : (char) 0; };
    const bool neg = at (0) == '-';
    if (neg) ++i;
    int64_t m = 0;
    while (digit (at (i))) { m = m * 10 + (int64_t) (at (i) - '0'); ++nd; ++i; }
    if (!nd) return REFUSED;
    v = neg ? -m : m;
    if (i == t.size ()) return ACCEPTED;
    return tail && at (i) == tail ? OPEN : REFUSED;
}
// 0..8 the fields by letter, 9.. the extra fields, -1 none
static int field_index (const std::string &t, size_t ne)
{
    static const char L[] = "xyzcpirgb";
    if (t.size () == 1) for (int k = 0; k < 9; ++k) if (t[0] == L[k]) return k;
    if (t.size () < 2 || t[0] != 'e') return -1;
    size_t v = 0;
    for (size_t k = 1; k < t.size (); ++k) { if (!digit (t[k])) return -1; v = v * 10 + (size_t) (t[k] - '0'); }
    for (size_t k = 0; k < ne; ++k) if (v == k) return 9 + (int) k;
    return -1;
}
static const tool_doc &tool_named (const std::string &n) { for (const auto &t : tools ()) if (n == t.name) return t; __builtin_unreachable (); }
static void set_field_bits (point_record &p, size_t f, uint64_t v)
{
    switch (f)
    {
        case 0: p.x = vs_unbits (v); break; case 1: p.y = vs_unbits (v); break; case 2: p.z = vs_unbits (v); break;
        case 3: p.c = v; break; case 4: p.p = v; break; case 5: p.i = v; break; case 6: p.r = v; break; case 7: p.g = v; break; case 8: p.b = v; break;
        default: p.extra[f - 9] = v;
    }
}
static point_records two_extras (size_t n) { point_records p; for (size_t k = 0; k < n; ++k) { point_record q = any_point (2); q.x = 1 + k; q.y = 2; q.z = 3; p.push_back (q); } return p; }
static tool_result run_text (const char *name, std::vector<std::string> args, const std::string &in) { return tool (tool_named (name).run, args, in, 0); }
static void check_refused (const tool_result &t, const std::string &in, bool partial)
{
    vs_check (t.rc != 0, "a malformed argument is an error");
    vs_check (!t.err.empty (), "the error has a message");
    // spoc_transform has already written the header by then
    if (partial) vs_check (t.out.size () < in.size (), "no complete output is written");
    else vs_check (!t.out_exists && t.text.empty (), "no output is written");
}
// numbers given to the commands of spoc_transform
extern "C" void transform_numbers ()
{
    static const char *const CMD[] = {"set=x,", "set=e1,", "add-x=", "add-y=", "add-z=", "scale-x=", "scale-y=", "scale-z=", "quantize-xyz=", "rotate-x=", "rotate-y=", "rotate-z=",
        "gaussian-noise=", "gaussian-noise-x=", "gaussian-noise-y=", "gaussian-noise-z=", "uniform-noise=", "uniform-noise-x=", "uniform-noise-y=", "uniform-noise-z="};
    const size_t k = vs_choose ("command", 0, 19);
    const size_t n = vs_choose ("length", 0, k == 0 ? 3 + vs_tier () : 2);
    const std::string t = any_text ("text", n);
    double v = 0;
    const verdict w = decimal (t, ',', v);
    if (w == OPEN) return;
    if (w == ACCEPTED && k > 7) return; // C11
    const point_records p = two_extras (1);
    const std::string in = file_bytes ("", p);
    const tool_result r = run_text ("transform", {std::string ("--") + CMD[k] + t}, in);
    if (w == REFUSED) { check_refused (r, in, true); vs_reach ("refused"); return; }
    vs_check (r.rc == 0, "a number is accepted");
    if (k == 0)
    {
        point_records q = p;
        q[0].x = v;
        vs_check (diff (r.out, file_bytes ("", q)) == 0, "the number is used as written");
    }
    vs_reach ("accepted");
}
// integers given to replace and replace-not
extern "C" void transform_integers ()
{
    const size_t k = vs_choose ("command", 0, 3), n = vs_choose ("length", 0, 2 + vs_tier ());
    const std::string t = any_text ("text", n);
    vs_assume (n == 0 || t[0] != '-');
    int64_t v = 0;
    const verdict w = integer (t, ',', v);
    if (w == OPEN) return;
    const point_records p = two_extras (1);
    const std::string in = file_bytes ("", p);
    const std::string c = k == 0 ? "--replace=c," + t + ",5" : k == 1 ? "--replace=c,5," + t : k == 2 ? "--replace-not=c," + t + ",5" : "--replace-not=c,5," + t;
    const tool_result r = run_text ("transform", {c}, in);
    if (w == REFUSED) { check_refused (r, in, true); vs_reach ("refused"); return; }
    vs_check (r.rc == 0, "an integer is accepted");
    const uint32_t old = p[0].c, a = k & 1 ? 5 : (uint32_t) v, b = k & 1 ? (uint32_t) v : 5;
    const spoc_file f = parse (r.out);
    vs_check (f.get_point_records ().size () == 1 && vs_ne (f.get_point_record (0).c, ((old == a) ^ (k > 1)) ? b : old) == 0, "the integer is used as written");
    vs_reach ("accepted");
}
// missing values
extern "C" void missing_values ()
{
    static const char *const ARG[] = {"replace=c", "replace=c,", "replace=c,1", "replace=c,1,", "replace-not=c", "replace-not=c,", "replace-not=c,1", "replace-not=c,1,", "set=c", "set=c,", "set=", "set=,1",
        "copy-field=", "copy-field=c", "copy-field=c,", "copy-field=,c", "replace=,1,2", "replace=", "replace-not=", "add-x=", "scale-z=", "rotate-y=", "quantize-xyz=", "gaussian-noise=", "uniform-noise="};
    const std::string in = file_bytes ("", two_extras (1));
    check_refused (run_text ("transform", {std::string ("--") + ARG[vs_choose ("argument", 0, sizeof ARG / sizeof *ARG - 1)]}, in), in, true);
    vs_reach ("end");
}
// field names
extern "C" void field_names ()
{
    const size_t k = vs_choose ("command", 0, 6), n = vs_choose ("length", 0, 3);
    const std::string t = any_string ("text", n);
    bool ok = true;
    for (char c : t) ok &= (c != 0) & (c != ',');
    vs_assume (ok);
    const int f = field_index (t, 2);
    const point_records p = two_extras (1);
    const std::string in = file_bytes ("", p);
    tool_result r;
    if (k == 0) r = run_text ("transform", {"--set=" + t + ",7"}, in);
    if (k == 1) r = run_text ("transform", {"--copy-field=c," + t}, in);
    if (k == 2) r = run_text ("transform", {"--copy-field=" + t + ",c"}, in);
    if (k == 3) r = run_text ("transform", {"--replace=" + t + ",1,2"}, in);
    if (k == 4) r = run_text ("transform", {"--replace-not=" + t + ",1,2"}, in);
    if (k == 5) r = run_text ("tool", {"--get-field=" + t}, in);
    if (k == 6)
    {
        vs_file_put ("f.txt", "7\n"); side_files = 1;
        r = run_text ("tool", {"--set-field=" + t, "-f", "f.txt"}, in);
        vs_file_remove ("f.txt"); side_files = 0;
        // a further extra field is added (C25)
        if (f < 0 && t.size () > 1 && t[0] == 'e' && digit (t[1]) && (t.size () < 3 || digit (t[2]))) return;
    }
    if (f < 0 || (k >= 1 && k <= 4 && f < 3)) { check_refused (r, in, k < 5); vs_reach ("refused"); return; }
    vs_check (r.rc == 0, "a field name is accepted");
    if (k == 0 || k == 6)
    {
        point_records q = p;
        set_field_bits (q[0], (size_t) f, f < 3 ? vs_bits (7.0) : 7);
        vs_check (diff (r.out, file_bytes ("", q)) == 0, "the named field is set");
    }
    vs_reach ("accepted");
}
// numeric options of the other tools
extern "C" void option_numbers ()
{
    static const struct { const char *tool, *option, *more; bool integer; } O[] = {
        {"filter", "-k", "", true}, {"filter", "--remove-class=", "", true}, {"filter", "-a", "--unique-xyz", true}, {"filter", "--subsample=", "", false}, {"transform", "-a", "--set=c,1", true},
        {"tile", "--tiles=", "", true}, {"tile", "-d", "-s1000", true}, {"tile", "--tile-size=", "", false}, {"tile", "-x", "", false}, {"tile", "--tile-size-y=", "", false},
        {"merge", "--point-id=", "in.spoc", true}, {"tool", "--resize-extra=", "", true}, {"tool", "--resolution=", "--recenter-xy", false}};
    vs_rng_mode (0);
    const size_t k = vs_choose ("option", 0, 12), n = vs_choose ("length", 0, 2 + vs_tier ());
    std::string t = any_text ("text", n);
    if (n == 0 && O[k].option[1] != '-') return;
    int64_t iv = 0; double dv = 0;
    const verdict w = O[k].integer ? integer (t, 0, iv) : decimal (t, 0, dv);
    if (w == OPEN) return;
    if (w == ACCEPTED && k != 0 && k != 1 && k != 10 && k != 11 && k != 12) return;
    if (w == ACCEPTED && k == 11)
    {
        // the number of extra fields is a size of allocations: one case per value
        for (char &c : t) c = (char) vs_concretize ((unsigned char) c);
        integer (t, 0, iv);
    }
    const point_records p = two_extras (1);
    const std::string in = file_bytes ("", p);
    std::vector<std::string> args {std::string (O[k].option) + t};
    if (*O[k].more) args.push_back (O[k].more);
    tool_result r;
    if (k < 5 || k > 10) r = run_text (O[k].tool, args, in);
    else
    {
        vs_file_put ("in.spoc", in);
        args.insert (args.begin (), O[k].tool); args.push_back ("in.spoc");
        const vs_run_result x = vs_run (tool_named (O[k].tool).run, args);
        vs_file_remove ("in.spoc");
        vs_check (vs_file_count () == 0, "no file appears");
        r.rc = x.rc; r.err = x.err; r.out = x.out; r.out_exists = !x.out.empty ();
    }
    if (w == REFUSED) { check_refused (r, in, false); vs_reach ("refused"); return; }
    if (k == 11 && (iv < 0 || iv > 255)) { check_refused (r, in, false); vs_reach ("refused"); return; }
    if (k < 2 && iv < 0) { check_refused (r, in, false); vs_reach ("refused"); return; }
    vs_check (r.rc == 0, "a number is accepted");
    if (k < 2)
    {
        const bool same = (int64_t) p[0].c == iv;
        vs_check (r.out.size () == (same == (k == 0) ? in.size () : file_bytes ("", point_records ()).size ()), "the class is used as written");
    }
    if (k == 10)
    {
        const spoc_file f = parse (r.out);
        bool ok = f.get_point_records ().size () == 2;
        for (size_t j = 0; ok && j < 2; ++j) ok = vs_ne (f.get_point_record (j).p, iv < 0 ? (uint32_t) j : (uint32_t) iv) == 0;
        vs_check (ok, "the point ID is used as written");
    }
    if (k == 11) vs_check (parse (r.out).get_point_record (0).extra.size () == (size_t) iv, "the number of extra fields is used as written");
    vs_reach ("accepted");
}
// the condition of --remove-coords
extern "C" void conditions ()
{
    const size_t kind = vs_choose ("kind", 0, 2);
    const point_records p = two_extras (1);
    const std::string in = file_bytes ("", p);
    if (kind == 0)
    {
        // coordinate and operator
        std::string t = any_string ("text", 2);
        bool ok = true;
        for (char c : t) ok &= (c != 0) & (c != ' ');
        vs_assume (ok);
        const tool_result r = run_text ("filter", {"-c", std::string (1, t[0]) + " " + t[1] + " 2.5"}, in);
        const bool good = (t[0] == 'x' || t[0] == 'y' || t[0] == 'z') && (t[1] == '<' || t[1] == '>');
        if (!good) { check_refused (r, in, false); vs_reach ("refused"); return; }
        const bool removed = (t[0] == 'z') == (t[1] == '>');
        vs_check (r.rc == 0 && r.out.size () == (removed ? file_bytes ("", point_records ()).size () : in.size ()), "the condition is used as written");
        vs_reach ("accepted");
    }
    else if (kind == 1)
    {
        const size_t n = vs_choose ("length", 1, 2 + vs_tier ());
        const std::string t = any_text ("text", n);
        bool ok = true;
        for (char c : t) ok &= (c != ' ');
        vs_assume (ok);
        double v = 0;
        const verdict w = decimal (t, 0, v);
        if (w == OPEN) return;
        const tool_result r = run_text ("filter", {"-c", "y < " + t}, in);
        if (w == REFUSED) { check_refused (r, in, false); vs_reach ("refused"); return; }
        vs_check (r.rc == 0 && r.out.size () == (2 < v ? file_bytes ("", point_records ()).size () : in.size ()), "the number is used as written");
        vs_reach ("accepted");
    }
    else
    {
        static const char *const BAD[] = {"x", "x >", "x > 1 2", "x > 1 or", "xx > 1", "x >> 1", "x = 1", "x >= 1", "> 1", "1 > x", "c > 1"};
        check_refused (run_text ("filter", {"-c", BAD[vs_choose ("bad", 0, 10)]}, in), in, false);
        vs_reach ("refused");
    }
}
