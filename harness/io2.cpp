#include "gen.h"
#include <stdexcept>
using namespace spoc::io;
using namespace spoc::header;

// ---------------------------------------------------------------- C04
extern "C" void header_round_trip ()
{
    size_t nw = pick ("nw", {0, 1, 2, 17, 255, 256, 4096, 32768, 65535});
    std::string wkt = nw <= 256 ? any_string ("wkt", nw) : std::string (nw, 'w');
    if (nw > 256) { wkt[0] = (char) vs_u8 ("w0"); wkt[nw - 1] = (char) vs_u8 ("w1"); }
    uint8_t ex = vs_u8 ("ex"); uint64_t total = vs_u64 ("total"); bool comp = vs_choose ("comp", 0, 1) != 0;
    const header h (wkt, ex, total, comp);
    std::stringstream s;
    write_header (s, h);
    vs_check (s.str ().size () == 18 + nw, "header size");
    vs_check (diff (s.str (), header_bytes (wkt, ex, total, comp)) == 0, "header bytes are not the documented layout");
    header g = read_header (s);
    vs_check (diff (g.wkt, wkt) == 0, "wkt changed");
    uint64_t d = vs_ne (g.extra_fields, ex);
    d |= vs_ne (g.total_points, total);
    vs_check (d == 0, "header numbers changed");
    vs_check (g.compressed == comp, "compression flag changed");
    vs_check (g.major_version == spoc::MAJOR_VERSION && g.minor_version == spoc::MINOR_VERSION, "version changed");
    vs_check (g == h && !(g != h) && g.is_valid (), "header read back compares equal");
    vs_check (s.good () && s.peek () == EOF, "header reader consumed exactly the header");
    if (nw < 3) { vs_observe ("ex", g.extra_fields); vs_observe ("total", g.total_points); }
    vs_reach ("end");
}
// a WKT that does not fit the 16 bit length is refused
extern "C" void header_too_long ()
{
    size_t nw = pick ("nw", {65536, 65537, 70000, 131072});
    std::string wkt (nw, 'w');
    bool thrown = false;
    std::stringstream s;
    int how = (int) vs_choose ("how", 0, 2);
    try
    {
        if (how == 0) { header h (wkt, 0, 0, false); write_header (s, h); }
        else if (how == 1) { spoc_file f (wkt, false); write_spoc_file (s, f); }
        else { spoc_file f; f.set_wkt (wkt); f.set_compressed (true); write_spoc_file (s, f); }
    }
    catch (const std::exception &) { thrown = true; }
    vs_check (thrown, "a WKT above 65535 bytes is refused");
    vs_check (s.str ().empty (), "nothing is written for a refused header");
    vs_reach ("end");
}
// a header read from any bytes: rejected, or exactly what the bytes say
extern "C" void header_any_bytes ()
{
    size_t n = vs_choose ("n", 0, vs_tier () ? 26 : 22);
    std::string b = any_string ("b", n);
    bound_wkt (b);
    std::stringstream s (b);
    bool thrown = false;
    header h;
    try { h = read_header (s); } catch (const std::exception &) { thrown = true; }
    if (thrown)
    {
        // a complete, well-formed header is never refused
        if (n < 18) { vs_reach ("short"); return; }
        unsigned len = (unsigned char) b[6] | ((unsigned char) b[7] << 8);
        bool ok = (b[0] == 'S') & (b[1] == 'P') & (b[2] == 'O') & (b[3] == 'C') & ((unsigned char) b[4] == spoc::MAJOR_VERSION) & ((unsigned char) b[5] == spoc::MINOR_VERSION);
        vs_check (!(ok & (18 + len <= n)), "a well-formed header was refused");
        vs_reach ("rejected");
        return;
    }
    vs_check (n >= 18, "a header shorter than 18 bytes was accepted");
    uint64_t d = vs_ne ((unsigned char) b[0], 'S'); d |= vs_ne ((unsigned char) b[1], 'P'); d |= vs_ne ((unsigned char) b[2], 'O'); d |= vs_ne ((unsigned char) b[3], 'C');
    vs_check (d == 0, "a wrong signature was accepted");
    d = vs_ne ((unsigned char) b[4], spoc::MAJOR_VERSION); d |= vs_ne ((unsigned char) b[5], spoc::MINOR_VERSION);
    vs_check (d == 0, "an incompatible version was accepted");
    size_t len = h.wkt.size ();
    d = vs_ne ((unsigned char) b[6], len & 255); d |= vs_ne ((unsigned char) b[7], len >> 8);
    vs_check (d == 0 && 18 + len <= n, "wkt length");
    vs_check (diff (h.wkt, b.substr (8, len)) == 0, "wkt bytes");
    uint64_t total = 0;
    for (int k = 7; k >= 0; --k) total = (total << 8) | (unsigned char) b[9 + len + k];
    d = vs_ne (h.extra_fields, (unsigned char) b[8 + len]); d |= vs_ne (h.total_points, total); d |= vs_ne (h.compressed, (unsigned char) b[17 + len]);
    vs_check (d == 0, "header numbers are those in the bytes");
    vs_reach ("accepted");
}
// the readers for one encoding refuse the other
extern "C" void wrong_encoding ()
{
    size_t n = vs_choose ("n", 0, 2), ne = vs_choose ("ne", 0, 1);
    point_records prs = any_points (n, ne);
    bool comp = vs_choose ("comp", 0, 1) != 0;
    for (auto &p : prs) vs_assume (((uint8_t) p.c != 0) & (p.p != 0) & (p.i != 0) & (p.r != 0) & (p.g != 0) & (p.b != 0) & (p.x > 0) & (p.y > 0) & (p.z > 0));
    for (auto &p : prs) for (auto e : p.extra) vs_assume (e != 0);
    const spoc_file f ("w", comp, prs);
    std::stringstream s, t;
    write_spoc_file (s, f);
    bool thrown = false;
    try { if (comp) read_spoc_file_uncompressed (s); else read_spoc_file_compressed (s); } catch (const std::exception &) { thrown = true; }
    vs_check (thrown, "reader took a file of the other encoding");
    thrown = false;
    try { if (comp) write_spoc_file_uncompressed (t, f); else write_spoc_file_compressed (t, f); } catch (const std::exception &) { thrown = true; }
    vs_check (thrown && t.str ().empty (), "writer took a file of the other encoding");
    vs_reach ("end");
}

// ---------------------------------------------------------------- C05
static void expect_truncated (const std::string &bytes, size_t cut)
{
    std::stringstream s (bytes.substr (0, cut));
    bool thrown = false;
    vs_must_terminate (20000000);
    try { spoc_file g = read_spoc_file (s); } catch (const std::exception &) { thrown = true; }
    vs_terminated ();
    vs_check (thrown, "a truncated file was accepted");
}
extern "C" void truncated_uncompressed ()
{
    size_t n = pick ("n", {0, 1, 2, 3}), ne = vs_choose ("ne", 0, 2), nw = vs_choose ("nw", 0, 2);
    std::string wkt = any_string ("wkt", nw);
    std::string bytes = file_bytes (wkt, any_points (n, ne));
    size_t cut = vs_choose ("cut", 0, bytes.size () - 1);
    expect_truncated (bytes, cut);
    vs_reach ("end");
}
// files that need several buffers, cut near every buffer boundary and at the end
extern "C" void truncated_chunks ()
{
    size_t n = pick ("n", {25, 26, 51}), ne = vs_choose ("ne", 0, 1);
    std::string bytes = file_bytes ("", any_points (n, ne));
    size_t rec = 40 + 8 * ne;
    size_t at = pick ("at", {0, 1, 2}), d = vs_choose ("d", 0, 4);
    size_t per = 1024 / rec;
    size_t base = at == 0 ? bytes.size () - 1 : at == 1 ? 18 + per * rec : 18 + 2 * per * rec;
    size_t cut = base - d + (at ? 2 : 0);
    if (cut >= bytes.size ()) return;
    expect_truncated (bytes, cut);
    vs_reach ("end");
}
extern "C" void truncated_wide ()
{
    size_t ne = pick ("ne", {124, 255});
    std::string bytes = file_bytes ("", any_points (2, ne));
    size_t cut = bytes.size () - 1 - pick ("d", {0, 1, 7, 8, 44, 100, 1000, 1040, 1100});
    expect_truncated (bytes, cut);
    vs_reach ("end");
}
extern "C" void truncated_compressed ()
{
    size_t n = vs_choose ("n", 0, 2), ne = vs_choose ("ne", 0, 1), nw = vs_choose ("nw", 0, 1);
    point_records prs = any_points (n, ne);
    // which columns have content is chosen, not left to the solver
    size_t z = vs_choose ("zero", 0, 3);
    for (auto &p : prs)
    {
        if (z & 1) { p.x = p.p = p.g = 0; } else vs_assume ((p.x > 0) & (p.p != 0) & (p.g != 0));
        if (z & 2) { p.b = 0; for (auto &e : p.extra) e = 0; } else { vs_assume (p.b != 0); for (auto &e : p.extra) vs_assume (e != 0); }
        vs_assume ((p.y > 0) & (p.z > 0) & (p.c != 0) & (p.i != 0) & (p.r != 0));
    }
    const spoc_file f (any_string ("wkt", nw), true, prs);
    std::stringstream s;
    write_spoc_file (s, f);
    std::string bytes = s.str ();
#ifdef VS_SYM
    size_t cut = vs_choose ("cut", 0, bytes.size () - 1);
#else
    // the real zlib gives other lengths: any cut must be refused
    size_t cut = vs_choose ("cut", 0, 100000) % bytes.size ();
#endif
    expect_truncated (bytes, cut);
    vs_reach ("end");
}
extern "C" void truncated_record ()
{
    size_t ne = pick ("ne", {0, 1, 2, 124, 255});
    std::string bytes;
    record_bytes (bytes, any_point (ne));
    size_t cut = ne < 3 ? vs_choose ("cut", 0, bytes.size () - 1) : bytes.size () - pick ("d", {1, 7, 8, 9, 44, 900, 1000});
    std::stringstream s (bytes.substr (0, cut));
    bool thrown = false;
    try { spoc::point_record::read_point_record (s, ne); } catch (const std::exception &) { thrown = true; }
    vs_check (thrown, "a truncated record was accepted");
    vs_reach ("end");
}

// ---------------------------------------------------------------- C07
struct model { std::string wkt; bool comp = false; point_records p; };
static void agree (const spoc_file &f, const model &m, bool meta)
{
    vs_check (f.is_valid (), "file object is valid");
    size_t n = f.get_point_records ().size ();
    for (size_t k = 0; k < n; ++k) vs_check (f.get_point_record (k).extra.size () == f.get_extra_fields (), "all records have the same number of extra fields");
    vs_check (diff (f.get_point_records (), m.p) == 0, "records are those that were put in");
    vs_check (diff (f.get_wkt (), m.wkt) == 0, "wkt");
    vs_check (f.get_compressed () == m.comp, "compressed");
    if (!meta) return;
    vs_check (f.get_major_version () == spoc::MAJOR_VERSION && f.get_minor_version () == spoc::MINOR_VERSION, "version");
    header h = f.get_header ();
    vs_check (h.total_points == n && h.extra_fields == (n ? m.p[0].extra.size () : 0) && h.compressed == m.comp && h.wkt == m.wkt && h.is_valid (), "header describes the file");
}
static point_record small_point (size_t ne)
{
    point_record p (ne);
    p.x = vs_double ("x"); p.c = vs_u32 ("c"); p.b = vs_u16 ("b");
    for (auto &e : p.extra) e = vs_u64 ("e");
    return p;
}
static point_records small_points (const char *shape, bool &ok)
{
    // shapes: number of extra fields of each record
    static const int sh[][3] = {{-1, -1, -1}, {0, -1, -1}, {1, -1, -1}, {2, 2, -1}, {1, 2, -1}, {0, 1, -1}, {1, 1, 0}};
    const int *t = sh[vs_choose (shape, 0, vs_tier () ? 6 : 5)];
    point_records v;
    ok = true;
    for (int k = 0; k < 3 && t[k] >= 0; ++k) { v.push_back (small_point (t[k])); ok &= t[k] == t[0]; }
    return v;
}
extern "C" void file_operations ()
{
    spoc_file f, other ("O", true);
    model m, mo; mo.wkt = "O"; mo.comp = true;
    other.push_back (point_record (1)); mo.p.push_back (point_record (1));
    int steps = vs_tier () ? 4 : 3;
    for (int s = 0; s < steps; ++s)
    {
        int op = (int) vs_choose ("op", 0, 10);
        bool thrown = false, ok = true;
        try
        {
            switch (op)
            {
                case 0: { size_t ne = vs_choose ("ne", 0, 1); point_record p = small_point (ne); ok = m.p.empty () || m.p[0].extra.size () == ne; if (ok) m.p.push_back (p); f.push_back (p); break; }
                case 1: { if (m.p.empty ()) break; size_t ne = vs_choose ("ne", 0, 1), i = vs_choose ("i", 0, m.p.size () - 1); point_record p = small_point (ne); ok = m.p[0].extra.size () == ne; if (ok) m.p[i] = p; f.set_point_record (i, p); break; }
                case 2: { point_records v = small_points ("shape", ok); if (ok) m.p = v; f.set_point_records (v); break; }
                case 3: { point_records v = small_points ("shape", ok); if (ok) m.p = v; f.move_point_records (v); break; }
                case 4: { point_records v = f.move_point_records (); vs_check (diff (v, m.p) == 0, "moved records are the file's"); m.p.clear (); break; }
                case 5: { size_t ne = vs_choose ("size", 0, 2); for (auto &p : m.p) p.extra.resize (ne); f.resize_extra_fields (ne); break; }
                case 6: f.swap (other); std::swap (m, mo); break;
                case 7: f = other; m = mo; break;
                case 8: { spoc_file g (f); agree (g, m, true); other = g; mo = m; break; }
                case 9: { spoc_file g = f.clone_empty (); model e = m; e.p.clear (); agree (g, e, true); break; }
                case 10: { m.comp = !m.comp; f.set_compressed (m.comp); m.wkt += "x"; f.set_wkt (m.wkt); break; }
            }
        }
        catch (const std::exception &) { thrown = true; }
        vs_check (thrown == !ok, thrown ? "a consistent change was refused" : "records with different numbers of extra fields were accepted");
        if (thrown) vs_reach ("refused");
        agree (f, m, true);
        agree (other, mo, true);
    }
    vs_reach ("end");
}
extern "C" void file_construction ()
{
    bool ok;
    point_records v = small_points ("shape", ok);
    std::string w = any_string ("w", 2);
    bool c = vs_choose ("c", 0, 1) != 0, thrown = false;
    try
    {
        spoc_file f (w, c, v);
        model m; m.wkt = w; m.comp = c; m.p = v;
        agree (f, m, true);
        spoc_file g (7, 9, w, c, v), h;
        vs_check (g.get_major_version () == 7 && g.get_minor_version () == 9, "given version is kept");
        h = g;
        vs_check (h.get_major_version () == 7 && h.get_minor_version () == 9 && diff (h.get_point_records (), v) == 0, "assignment keeps everything");
        f = f;
        agree (f, m, true);
        // column accessors
        auto x = f.get_x (); auto cc = f.get_c (); auto b = f.get_b ();
        uint64_t d = x.size () != v.size () || cc.size () != v.size () || b.size () != v.size ();
        for (size_t k = 0; k < v.size (); ++k) { d |= vs_ne (vs_bits (x[k]), vs_bits (v[k].x)); d |= vs_ne (cc[k], v[k].c); d |= vs_ne (b[k], v[k].b); }
        for (size_t j = 0; j < f.get_extra_fields (); ++j) { auto e = f.get_extra (j); for (size_t k = 0; k < v.size (); ++k) d |= vs_ne (e[k], v[k].extra[j]); }
        vs_check (d == 0, "column accessors give the columns");
    }
    catch (const std::exception &) { thrown = true; }
    vs_check (thrown == !ok, thrown ? "consistent records were refused" : "inconsistent records were accepted");
    vs_reach ("end");
}
extern "C" void columns ()
{
    size_t n = vs_choose ("n", 0, 3), ne = vs_choose ("ne", 0, 2);
    point_records v = any_points (n, ne);
    spoc_file f ("", false, v);
    auto x = f.get_x (); auto y = f.get_y (); auto z = f.get_z ();
    auto c = f.get_c (); auto p = f.get_p (); auto i = f.get_i (); auto r = f.get_r (); auto g = f.get_g (); auto b = f.get_b ();
    vs_check (x.size () == n && y.size () == n && z.size () == n && c.size () == n && p.size () == n && i.size () == n && r.size () == n && g.size () == n && b.size () == n, "column length");
    uint64_t d = 0;
    for (size_t k = 0; k < n; ++k)
    {
        d |= vs_ne (vs_bits (x[k]), vs_bits (v[k].x)); d |= vs_ne (vs_bits (y[k]), vs_bits (v[k].y)); d |= vs_ne (vs_bits (z[k]), vs_bits (v[k].z));
        d |= vs_ne (c[k], v[k].c); d |= vs_ne (p[k], v[k].p); d |= vs_ne (i[k], v[k].i); d |= vs_ne (r[k], v[k].r); d |= vs_ne (g[k], v[k].g); d |= vs_ne (b[k], v[k].b);
    }
    for (size_t j = 0; j < (n ? ne : 0); ++j) { auto e = f.get_extra (j); vs_check (e.size () == n, "extra column length"); for (size_t k = 0; k < n; ++k) d |= vs_ne (e[k], v[k].extra[j]); }
    vs_check (d == 0, "columns hold the values of their field in point order");
    vs_reach ("end");
}
// more than 255 extra fields do not fit the header
extern "C" void too_many_extra ()
{
    size_t ne = pick ("ne", {256, 257, 300, 512, 65536}), n = vs_choose ("n", 1, 2);
    if (ne > 60000) n = 1;
    bool comp = vs_choose ("comp", 0, 1) != 0, thrown = false;
    std::stringstream s;
    try { spoc_file f ("", comp, point_records (n, point_record (ne))); write_spoc_file (s, f); } catch (const std::exception &) { thrown = true; }
    vs_check (thrown, "more than 255 extra fields are refused");
    vs_check (s.str ().empty (), "nothing is written");
    vs_reach ("end");
}

// ---------------------------------------------------------------- C09
extern "C" void streaming ()
{
    size_t n = vs_choose ("n", 0, 3), ne = n < 3 ? pick ("ne", {0, 1, 2, 123, 124, 255}) : 2, nw = vs_choose ("nw", 0, 1);
    std::string wkt = any_string ("wkt", nw);
    point_records prs = any_points (n, ne);
    // written record by record
    std::stringstream s;
    write_header (s, header (wkt, n ? ne : 0, n, false));
    for (const auto &p : prs) spoc::point_record::write_point_record (s, p);
    const spoc_file f (wkt, false, prs);
    std::stringstream t;
    write_spoc_file (t, f);
    vs_check (diff (s.str (), t.str ()) == 0, "record-wise writing gives the file's bytes");
    // read record by record
    header h = read_header (t);
    vs_check (diff (h.wkt, wkt) == 0 && h.total_points == n && h.extra_fields == (n ? ne : 0), "header");
    for (size_t k = 0; k < n; ++k)
    {
        point_record p = spoc::point_record::read_point_record (t, h.extra_fields);
        vs_check (diff (p, prs[k]) == 0, "record-wise reading gives the file's records");
    }
    vs_check (t.peek () == EOF, "nothing is left");
    // and the whole-file reader takes the record-wise output
    spoc_file g = read_spoc_file (s);
    vs_check (diff (g, f) == 0, "whole-file reader takes record-wise output");
    if (n == 2 && ne < 3) observe (g.get_point_records ());
    vs_reach ("end");
}
