// C28: the info tool
#include "apps.h"
#include "grid.h"
#define main info_main
#include "apps/info/info.cpp"
#undef main
struct reader
{
    const std::string &s; size_t pos;
    static bool space (char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
    void skip () { while (pos < s.size () && space (s[pos])) ++pos; }
    // text, whatever the white space
    void lit (const char *l)
    {
        for (; *l; ++l)
        {
            if (space (*l)) continue;
            skip ();
            vs_check (pos < s.size () && s[pos] == *l, "the report has the expected form");
            if (!(pos < s.size () && s[pos] == *l)) vs_stop ();
            ++pos;
        }
    }
    void integer (uint64_t want, const char *msg)
    {
        skip ();
        uint64_t v = 0, minus = 0;
        vs_check (vs_get_int (s, pos, v, &minus), "a number is printed");
        vs_check ((vs_ne (v, want) | minus) == 0, msg);
    }
    void number (double want, int precision, const char *msg)
    {
        skip ();
        std::ostringstream o; o << std::fixed << std::setprecision (precision) << want;
        size_t p = 0; double v = 0, w = 0;
        vs_check (vs_get_double (o.str (), p, w) && vs_get_double (s, pos, v), "a number is printed");
        vs_check (vs_ne (vs_bits (v), vs_bits (w)) == 0, msg);
    }
    void end () { skip (); vs_check (pos == s.size (), "nothing follows the report"); }
};
static const char *const KEYS[] = {"x", "y", "z", "c", "p", "i", "r", "g", "b", "extra_0"};
template<typename T> struct column { std::vector<T> v; };
// one value, as the field's type
static void value (reader &r, size_t f, uint64_t bits, int precision, const char *msg)
{
    if (f < 3) r.number (vs_unbits (bits), precision, msg); else r.integer (bits, msg);
}
static uint64_t minus (size_t f, uint64_t a, uint64_t b) { return f < 3 ? vs_bits (vs_unbits (a) - vs_unbits (b)) : a - b; }
static bool less (size_t f, uint64_t a, uint64_t b) { return f < 3 ? vs_unbits (a) < vs_unbits (b) : a < b; }
static void summary_of (reader &r, const point_records &in, size_t f, bool json, bool compact, bool quartiles)
{
    const size_t n = in.size ();
    const int prec = json ? 15 : 3;
    std::vector<uint64_t> y;
    for (auto &p : in) y.push_back (field (p, f));
    for (size_t a = 1; a < n; ++a)
        for (size_t b = a; b > 0 && less (f, y[b], y[b - 1]); --b) std::swap (y[b], y[b - 1]);
    if (!json && (n || !compact)) r.lit (KEYS[f]);
    if (n == 0)
    {
        if (json) { r.lit ("{ 'max' : 0, 'min' : 0, 'size' : 0 }"); return; }
        if (!compact) r.lit ("0 size 0 min 0 max 0");
        return;
    }
    const uint64_t q[] = {y[0], y[n / 4], y[n / 2], y[3 * n / 4], y[n - 1]};
    const uint64_t range = minus (f, q[4], q[0]);
    if (json)
    {
        if (quartiles)
        {
            static const char *const k[] = {"{ 'q0' : ", ", 'q1' :", ", 'q2' :", ", 'q3' :", ", 'q4' :"};
            for (int i = 0; i < 5; ++i) { r.lit (k[i]); value (r, f, q[i], prec, "quartile"); }
            r.lit (", 'range' : "); value (r, f, range, prec, "range"); r.lit ("}");
        }
        else
        {
            r.lit ("{ 'max' : "); value (r, f, q[4], prec, "maximum"); r.lit (", 'min' : "); value (r, f, q[0], prec, "minimum"); r.lit (", 'range' : "); value (r, f, range, prec, "range"); r.lit ("}");
        }
        return;
    }
    if (!compact) { r.integer (n, "number of values"); r.lit ("range"); } else r.lit ("range=");
    value (r, f, range, prec, "range");
    if (!quartiles)
    {
        r.lit (compact ? ", min=" : "min"); value (r, f, q[0], prec, "minimum");
        r.lit (compact ? ", max=" : "max"); value (r, f, q[4], prec, "maximum");
        return;
    }
    static const char *const sep[] = {", ", " + ", " + ", " + ", " + "};
    static const char *const lab[] = {"q0", "q1", "q2", "q3", "q4"};
    for (int i = 0; i < 5; ++i)
    {
        r.lit (compact ? sep[i] : lab[i]);
        value (r, f, compact && i ? minus (f, q[i], q[i - 1]) : q[i], prec, "quartile");
    }
    if (compact) { r.lit (" = "); value (r, f, q[4], prec, "maximum"); }
}
static std::string run (std::vector<std::string> args, const std::string &bytes)
{
    bool file = args.size () % 2 != 0;
    args.insert (args.begin (), "info");
    if (file) { vs_file_put ("in.spoc", bytes); args.push_back ("in.spoc"); }
    vs_run_result r = vs_run (info_main, args, file ? std::string () : bytes);
    vs_check (r.rc == 0, "the tool succeeds");
    if (file)
    {
        std::string after;
        vs_check (vs_file_get ("in.spoc", after) && diff (after, bytes) == 0, "the file is left alone");
        vs_file_remove ("in.spoc");
    }
    vs_check (vs_file_count () == 0, "no file appears");
    return r.out;
}
// minima, maxima, ranges and quartiles of one arbitrary column among fixed ones
extern "C" void summary ()
{
    const size_t n = vs_choose ("n", 0, 3 + 2 * vs_tier ()), ne = 1;
    size_t f = vs_choose ("field", 0, 9);
    if (vs_tier () && n == 5 && f < 3) vs_stop ();
    bool json = vs_choose ("json", 0, 1) != 0, compact = vs_choose ("compact", 0, 1) != 0, quartiles = vs_choose ("quartiles", 0, 1) != 0;
    point_records in;
    for (size_t k = 0; k < n; ++k)
    {
        point_record p (ne);
        p.x = 1.5 - k; p.y = 2 * k; p.z = -7.25; p.c = 3 + k; p.p = 4 - k; p.i = 5; p.r = 6; p.g = 7; p.b = 8; p.extra[0] = 9 + k;
        point_record q = any_point (ne);
        put_field (p, f, field (q, f));
        // ordered numbers; the sign of a zero is not compared
        if (f < 3) { double d = vs_unbits (field (p, f)); vs_assume ((d == d) & (vs_bits (d) != 0x8000000000000000ull)); }
        in.push_back (p);
    }
    // options toggle; compact is on and quartiles are off to begin with
    std::vector<std::string> args {"-a", "-l", "--metric-info"};
    if (json) args.push_back ("--json");
    if (!compact) args.push_back ("-c");
    if (quartiles) args.push_back ("-q");
    const std::string s = run (args, file_bytes ("", in));
    reader r {s, 0};
    if (json)
    {
        static const size_t order[] = {8, 3, 9, 7, 5, 4, 6, 0, 1, 2}; // by key
        r.lit ("{ 'summary' : {");
        for (size_t k = 0; k < 10; ++k)
        {
            if (k) r.lit (",");
            if (order[k] == 9) { r.lit ("'extra' : ["); if (n) summary_of (r, in, 9, json, compact, quartiles); r.lit ("]"); continue; }
            r.lit ("'"); r.lit (KEYS[order[k]]); r.lit ("' : ");
            summary_of (r, in, order[k], json, compact, quartiles);
        }
        r.lit ("} }");
    }
    else
        for (size_t k = 0; k < 9 + (n ? 1 : 0); ++k) summary_of (r, in, k, json, compact, quartiles);
    r.end ();
    vs_reach ("end");
}
extern "C" void header_report ()
{
    const size_t n = vs_choose ("n", 0, 2), nw = vs_choose ("nw", 0, 3);
    bool json = vs_choose ("json", 0, 1) != 0, comp = vs_choose ("comp", 0, 1) != 0, compact = vs_choose ("compact", 0, 1) != 0;
    std::string wkt = any_string ("w", nw);
    for (char c : wkt) vs_assume ((c != '\'') & (c != ' ') & (c != '\n') & (c != '\t') & (c != '\r'));
    point_records in (n);
    for (auto &p : in) p.x = 4;
    std::vector<std::string> args {"-s", "--classification-info", "-m"};
    if (json) args.push_back ("-j");
    if (!compact) args.push_back ("--compact");
    const std::string s = run (args, comp ? compressed_bytes (wkt, in) : file_bytes (wkt, in));
    reader r {s, 0};
    auto quoted = [&] () {
        r.lit ("'");
        for (size_t k = 0; k < nw; ++k) { vs_check (r.pos < s.size () && vs_ne ((uint8_t) s[r.pos], (uint8_t) wkt[k]) == 0, "the spatial reference is printed"); ++r.pos; }
        vs_check (r.pos < s.size () && s[r.pos] == '\'', "the spatial reference ends"); ++r.pos; };
    if (json)
    {
        r.lit ("{ 'header' : { 'compressed' : ");
        r.skip ();
        if (r.pos < s.size () && (s[r.pos] == '0' || s[r.pos] == '1')) r.integer (comp, "compression"); else r.lit (comp ? "true" : "false");
        r.lit (", 'major_version' : ");
        r.integer (spoc::MAJOR_VERSION, "version"); r.lit (", 'minor_version' : "); r.integer (spoc::MINOR_VERSION, "version");
        r.lit (", 'total_points' : "); r.integer (n, "number of points"); r.lit (", 'wkt' : "); quoted (); r.lit ("} }");
    }
    else
    {
        r.lit ("major_version"); r.integer (spoc::MAJOR_VERSION, "version"); r.lit ("minor_version"); r.integer (spoc::MINOR_VERSION, "version");
        r.lit ("ogc_wkt"); quoted (); r.lit ("total_points"); r.integer (n, "number of points"); r.lit (comp ? "compressed true" : "compressed false");
    }
    r.end ();
    vs_reach ("end");
}
// every class that occurs is listed once with its count
extern "C" void class_report ()
{
    const size_t n = vs_choose ("n", 0, 3);
    bool json = vs_choose ("json", 0, 1) != 0, compact = vs_choose ("compact", 0, 1) != 0;
    static const uint32_t base[] = {0, 98, 998, 0xfffffffcu, 63};
    uint32_t b = base[vs_choose ("base", 0, vs_tier () ? 4 : 3)];
    point_records in (n);
    for (size_t k = 0; k < n; ++k) { in[k].c = b + (uint32_t) vs_concretize (vs_sym ("c", 2)); in[k].x = (double) k; }
    std::vector<std::string> args {"-s", "--header-info", "-m"};
    if (json) args.push_back ("-j");
    if (!compact) args.push_back ("-c");
    const std::string s = run (args, file_bytes ("w", in));
    // text -> count
    std::vector<std::pair<std::string, uint64_t>> want;
    for (uint64_t c = b; c < (uint64_t) b + 4; ++c)
    {
        uint64_t count = 0;
        for (auto &p : in) count += p.c == c;
        std::string t = text (c);
        while (t.size () < 3) t.insert (t.begin (), '0');
        if (count) want.push_back ({t, count});
    }
    std::sort (want.begin (), want.end ());
    reader r {s, 0};
    if (json) r.lit ("{ 'classifications' : {");
    bool first = true;
    for (auto &w : want)
    {
        if (json) { r.lit (first ? "'" : ", '"); r.lit (w.first.c_str ()); r.lit ("' :"); } else { r.lit ("cls_"); r.lit (w.first.c_str ()); }
        first = false;
        r.integer (w.second, "number of points of the class");
        if (!json)
        {
            // the name of the class
            r.skip ();
            size_t e = s.find ('\n', r.pos);
            vs_check (e != std::string::npos && e > r.pos, "the class has a name");
            if (e == std::string::npos) vs_stop ();
            const std::string name = s.substr (r.pos, e - r.pos);
            if (w.first == "002") vs_check (name == "ground", "class 2 is ground");
            if (w.first == "4294967295" || w.first == "1000") vs_check (name == "undefined", "classes without a name are undefined");
            r.pos = e;
        }
    }
    if (json) r.lit ("} }");
    r.end ();
    vs_reach ("end");
}
// densities: points per area, per occupied unit cell and per occupied unit cube
extern "C" void metric_report ()
{
    const size_t n = 4;
    point_records in (n);
    std::vector<grid_point> g (n);
    g[0] = {{-4, -4, 0}}; g[1] = {{3, 3, 2}}; // corners, in halves
    for (size_t k = 2; k < n; ++k)
    {
        g[k].v[0] = any_int ("x", 3); g[k].v[1] = any_int ("y", 3); g[k].v[2] = vs_choose ("z", 0, 2);
    }
    for (size_t k = 0; k < n; ++k) place (in[k], g[k], 0.5);
    bool json = vs_choose ("json", 0, 1) != 0;
    std::vector<std::string> args {"-s", "-a", "-l"};
    if (json) args.push_back ("-j");
    const std::string s = run (args, file_bytes ("w", in));
    auto cell = [&] (size_t k, int d) { return ((uint64_t) (g[k].v[d] - g[0].v[d]) & 0xf) / 2; };
    uint64_t cells = 0, cubes = 0;
    for (size_t k = 0; k < n; ++k)
    {
        bool c = true, u = true;
        for (size_t j = 0; j < k; ++j)
        {
            bool same = (cell (j, 0) == cell (k, 0)) & (cell (j, 1) == cell (k, 1));
            c &= !same; u &= !(same & (cell (j, 2) == cell (k, 2)));
        }
        cells += c; cubes += u;
    }
    cells = vs_concretize (cells); cubes = vs_concretize (cubes);
    reader r {s, 0};
    r.lit (json ? "{ 'metrics' : { 'extent_point_density' : " : "extent_point_density"); r.number (4.0 / (3.5 * 3.5), 15, "points per area");
    r.lit (json ? ", 'grid_point_density' :" : "pts/unit^2 grid_point_density"); r.number (4.0 / (double) cells, 15, "points per occupied cell");
    r.lit (json ? ", 'voxel_point_density' :" : "pts/unit^2 voxel_point_density"); r.number (4.0 / (double) cubes, 15, "points per occupied cube");
    r.lit (json ? "} }" : "pts/unit^3");
    r.end ();
    vs_reach ("end");
}
// several files are reported in the order given; a file that cannot be read is an error
extern "C" void info_files ()
{
    point_records a (1), b (2);
    int bad = (int) vs_choose ("bad", 0, 2);
    vs_file_put ("a.spoc", file_bytes ("A", a));
    vs_file_put ("b.spoc", bad == 1 ? file_bytes ("B", b).substr (0, 40) : file_bytes ("B", b));
    vs_run_result r = vs_run (info_main, {"info", "-slm", "a.spoc", bad == 2 ? "c.spoc" : "b.spoc"});
    vs_check ((r.rc != 0) == (bad != 0), "a file that cannot be read is an error");
    if (bad) { vs_check (!r.err.empty (), "the error has a message"); vs_reach ("bad"); return; }
    size_t x = r.out.find ("'A'"), y = r.out.find ("'B'");
    vs_check (x != std::string::npos && y != std::string::npos && x < y, "files are reported in order");
    vs_reach ("good");
}
// more points of a class than a 16-bit number can count
extern "C" void class_many ()
{
    const size_t n = 65536 + 9;
    point_records in (n);
    for (size_t k = 0; k < n; ++k) { in[k].c = 2; in[k].x = (double) k; }
    in[n - 1] = any_point (0);
    in[n - 1].c = (uint32_t) vs_choose ("c", 1, 3);
    vs_assume ((in[n - 1].x - in[n - 1].x == 0) & (in[n - 1].y - in[n - 1].y == 0) & (in[n - 1].z - in[n - 1].z == 0));
    const bool json = vs_choose ("json", 0, 1) != 0;
    std::vector<std::string> args {"-s", "--header-info", "-m"};
    args.push_back (json ? "-j" : "-c");
    const std::string s = run (args, file_bytes ("w", in));
    uint64_t count[4] = {0, 0, n - 1, 0};
    ++count[in[n - 1].c];
    reader r {s, 0};
    if (json) r.lit ("{ 'classifications' : {");
    bool first = true;
    for (size_t c = 1; c < 4; ++c)
    {
        if (!count[c]) continue;
        const std::string t = "00" + std::to_string (c);
        if (json) { r.lit (first ? "'" : ", '"); r.lit (t.c_str ()); r.lit ("' :"); } else { r.lit ("cls_"); r.lit (t.c_str ()); }
        first = false;
        r.integer (count[c], "number of points of the class");
        if (!json) { r.skip (); while (r.pos < s.size () && s[r.pos] != '\n') ++r.pos; }
    }
    if (json) r.lit ("} }");
    r.end ();
    vs_reach ("end");
}
