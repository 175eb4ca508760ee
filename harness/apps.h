// Running the command line tools on symbolic files.
#pragma once
#include "gen.h"
#include <iomanip>
#include <limits>
// decimal text of a number; symbolic numbers stay symbolic
static inline std::string text (double v) { std::ostringstream s; s << std::setprecision (17) << v; return s.str (); }
static inline std::string text (uint64_t v) { std::ostringstream s; s << v; return s.str (); }
static inline std::string text (unsigned v) { return text ((uint64_t) v); }
static inline std::string compressed_bytes (const std::string &wkt, const point_records &p)
{
    std::stringstream s;
    spoc::io::write_spoc_file (s, spoc_file (wkt, true, p));
    return s.str ();
}
// parse a file written by a tool
static inline spoc_file parse (const std::string &bytes)
{
    std::stringstream s (bytes);
    spoc_file f = spoc::io::read_spoc_file (s);
    vs_check (s.peek () == EOF, "nothing follows the output file");
    return f;
}
// run a tool that reads one file and writes one; through files or through stdin/stdout
static size_t side_files = 0; // further files that a harness has put
struct tool_result { int rc; bool out_exists; std::string out, err, text; };
static inline tool_result tool (vs_main_fn f, std::vector<std::string> args, const std::string &in, int mode)
{
    tool_result t;
    args.insert (args.begin (), "tool");
    if (mode == 0)
    {
        vs_file_put ("in.spoc", in);
        args.push_back ("in.spoc"); args.push_back ("out.spoc");
        vs_run_result r = vs_run (f, args);
        t.rc = r.rc; t.err = r.err; t.text = r.out;
        t.out_exists = vs_file_get ("out.spoc", t.out);
        std::string after;
        vs_check (vs_file_get ("in.spoc", after) && diff (after, in) == 0, "the input file is left alone");
        vs_file_remove ("in.spoc"); vs_file_remove ("out.spoc");
        vs_check (vs_file_count () == side_files, "no other file appears");
    }
    else
    {
        vs_run_result r = vs_run (f, args, in);
        t.rc = r.rc; t.err = r.err; t.out = r.out; t.out_exists = !r.out.empty ();
        vs_check (vs_file_count () == side_files, "no file appears");
    }
    return t;
}
// field access by the names the tools use
static const char *const FIELDS[] = {"x", "y", "z", "c", "p", "i", "r", "g", "b", "e0", "e1", "e2"};
static inline uint64_t field (const point_record &p, size_t f)
{
    switch (f)
    {
        case 0: return vs_bits (p.x); case 1: return vs_bits (p.y); case 2: return vs_bits (p.z);
        case 3: return p.c; case 4: return p.p; case 5: return p.i; case 6: return p.r; case 7: return p.g; case 8: return p.b;
        default: return p.extra[f - 9];
    }
}
static inline void put_field (point_record &p, size_t f, uint64_t v)
{
    switch (f)
    {
        case 0: p.x = vs_unbits (v); break; case 1: p.y = vs_unbits (v); break; case 2: p.z = vs_unbits (v); break;
        case 3: p.c = (uint32_t) v; break; case 4: p.p = (uint32_t) v; break;
        case 5: p.i = (uint16_t) v; break; case 6: p.r = (uint16_t) v; break; case 7: p.g = (uint16_t) v; break; case 8: p.b = (uint16_t) v; break;
        default: p.extra[f - 9] = v;
    }
}
static inline uint64_t field_max (size_t f) { return f < 3 ? ~0ull : f < 5 ? 0xffffffffu : f < 9 ? 0xffff : ~0ull; }
// compare files where one field is checked separately
static inline uint64_t diff_except (const point_record &a, const point_record &b, size_t f)
{
    point_record c = b;
    put_field (c, f, field (a, f));
    return diff (a, c);
}
