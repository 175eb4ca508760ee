#include "gen.h"
using namespace spoc::io;
static size_t npoints () { return vs_tier () ? pick ("n", {0, 1, 2, 3, 5, 24, 25, 26, 49, 50, 51, 76}) : pick ("n", {0, 1, 2, 3, 25, 26, 51}); }
static size_t nextra () { return vs_tier () ? pick ("ne", {0, 1, 2, 3, 7, 122, 123, 124, 125, 254, 255}) : pick ("ne", {0, 1, 2, 123, 124, 255}); }
static size_t nwkt () { return pick ("nw", {0, 1, 5}); }

// C01 uncompressed write then read gives back the same file
extern "C" void uncompressed_round_trip ()
{
    size_t n = npoints (), ne = nextra (), nw = n > 3 || ne > 3 ? 1 : nwkt ();
    std::string wkt = any_string ("wkt", nw);
    point_records prs = any_points (n, ne);
    const spoc_file f (wkt, false, prs);
    std::stringstream s;
    int how = n > 3 ? 0 : (int) vs_choose ("api", 0, 1);
    if (how == 0) write_spoc_file (s, f); else write_spoc_file_uncompressed (s, f);
    std::string bytes = s.str ();
    vs_must_terminate (20000000);
    spoc_file g = how == 0 ? read_spoc_file (s) : read_spoc_file_uncompressed (s);
    vs_terminated ();
    vs_check (diff (f.get_point_records (), prs) == 0, "writing changed the file object");
    vs_check (diff (f, g) == 0, "uncompressed round trip changed the file");
    vs_check (s.good () && s.peek () == EOF, "reader did not consume exactly the file");
    vs_check (g.is_valid (), "read file is valid");
    // a second trip gives the same bytes
    std::stringstream s2;
    write_spoc_file (s2, g);
    vs_check (diff (bytes, s2.str ()) == 0, "re-writing gives different bytes");
    if (n == 2 && ne == 2) observe (g.get_point_records ());
    vs_reach (n > 25 ? "chunks" : "small");
    if (ne > 123) vs_reach ("wide");
}
static void many (bool comp)
{
    const point_records prs = many_points (vs_choose ("ne", 0, 1));
    const spoc_file f ("w", comp, prs);
    std::stringstream s;
    write_spoc_file (s, f);
    spoc_file g = read_spoc_file (s);
    vs_check (diff (f, g) == 0, "round trip of many points changed the file");
    vs_check (s.good () && s.peek () == EOF, "reader did not consume exactly the file");
    vs_reach ("end");
}
// C01, C02: more points than a 16-bit number can count
extern "C" void many_uncompressed () { many (false); }
extern "C" void many_compressed () { many (true); }
// C01 two files in one stream
extern "C" void stream_of_two_files ()
{
    size_t na = vs_choose ("na", 0, 2), nb = vs_choose ("nb", 0, 2), ea = vs_choose ("ea", 0, 1), eb = vs_choose ("eb", 0, 2);
    int ca = (int) vs_choose ("ca", 0, 1), cb = (int) vs_choose ("cb", 0, 1);
    point_records a = any_points (na, ea), b = any_points (nb, eb);
    for (auto &p : a) vs_assume ((p.c != 0) & (p.x != 0) & (p.y != 0) & (p.z != 0) & (p.p != 0) & (p.i != 0) & (p.r != 0) & (p.g != 0) & (p.b != 0));
    for (auto &p : b) vs_assume ((p.c != 0) & (p.x != 0) & (p.y != 0) & (p.z != 0) & (p.p != 0) & (p.i != 0) & (p.r != 0) & (p.g != 0) & (p.b != 0));
    for (auto &p : a) for (auto e : p.extra) vs_assume (e != 0);
    for (auto &p : b) for (auto e : p.extra) vs_assume (e != 0);
    const spoc_file fa ("A", ca, a), fb ("BB", cb, b);
    std::stringstream s;
    write_spoc_file (s, fa); write_spoc_file (s, fb);
    spoc_file ga = read_spoc_file (s), gb = read_spoc_file (s);
    vs_check (diff (fa, ga) == 0, "first of two files changed");
    vs_check (diff (fb, gb) == 0, "second of two files changed");
    vs_reach ("end");
}
// C02 compressed write then read gives back the same file
extern "C" void compressed_round_trip ()
{
    size_t n = vs_choose ("n", 0, vs_tier () ? 3 : 2), ne = vs_choose ("ne", 0, vs_tier () ? 3 : 2), nw = vs_choose ("nw", 0, 1);
    std::string wkt = any_string ("wkt", nw);
    point_records prs = any_columns (n, ne);
    const spoc_file f (wkt, true, prs);
    std::stringstream s;
    if (nw) write_spoc_file (s, f); else write_spoc_file_compressed (s, f);
    vs_must_terminate (40000000);
    spoc_file g = nw ? read_spoc_file (s) : read_spoc_file_compressed (s);
    vs_terminated ();
    vs_check (diff (f.get_point_records (), prs) == 0, "writing changed the file object");
    vs_check (diff (f, g) == 0, "compressed round trip changed the file");
    vs_check (s.good () && s.peek () == EOF, "reader did not consume exactly the file");
    if (n == 2) observe (g.get_point_records ());
    vs_reach ("end");
}
// C02 wide records
extern "C" void compressed_wide ()
{
    size_t n = vs_choose ("n", 1, 2), ne = pick ("ne", {17, 124, 255});
    point_records prs (n, point_record (ne));
    // one symbolic column; every other value is concrete and non-zero or zero
    size_t col = pick ("col", {0, 16, 8});
    for (size_t k = 0; k < n; ++k) { prs[k].x = 1 + k; prs[k].c = 7; for (size_t j = 0; j < ne; ++j) prs[k].extra[j] = j % 3 ? j * 1000 + k : 0; prs[k].extra[col] = vs_u64 ("e"); prs[k].extra[ne - 1] = vs_u64 ("l"); }
    const spoc_file f ("w", true, prs);
    std::stringstream s;
    write_spoc_file (s, f);
    spoc_file g = read_spoc_file (s);
    vs_check (diff (f, g) == 0, "compressed round trip changed a wide file");
    vs_reach ("end");
}
// C02 converting between the two encodings keeps every value
extern "C" void convert ()
{
    size_t n = vs_choose ("n", 0, 2), ne = vs_choose ("ne", 0, 1);
    point_records prs = any_columns (n, ne);
    int c = (int) vs_choose ("c", 0, 1);
    const spoc_file f ("w", c != 0, prs);
    std::stringstream a, b;
    write_spoc_file (a, f);
    spoc_file g = read_spoc_file (a);
    g.set_compressed (!c);
    write_spoc_file (b, g);
    spoc_file h = read_spoc_file (b);
    vs_check (diff (h.get_point_records (), prs) == 0 && h.get_compressed () == !c && h.get_wkt () == "w", "conversion between encodings changed the file");
    vs_reach ("end");
}
// C03 layout
extern "C" void layout ()
{
    size_t n = vs_choose ("n", 0, 3), ne = pick ("ne", {0, 1, 2, 3, 255}), nw = nwkt ();
    std::string wkt = any_string ("wkt", nw);
    point_records prs = any_points (n, ne);
    const spoc_file f (wkt, false, prs);
    std::stringstream s;
    write_spoc_file (s, f);
    std::string want = file_bytes (wkt, prs);
    vs_check (diff (s.str (), want) == 0, "written bytes are not the documented layout");
    // and the reader takes the documented layout
    std::stringstream t (want);
    spoc_file g = read_spoc_file (t);
    vs_check (diff (g, f) == 0, "documented layout read differently");
    vs_reach ("end");
}
// C03 compressed container: header, then 9 + extra length-prefixed blocks in field order
extern "C" void layout_compressed ()
{
    size_t n = vs_choose ("n", 0, 2), ne = vs_choose ("ne", 0, 2), nw = vs_choose ("nw", 0, 1);
    std::string wkt = any_string ("wkt", nw);
    point_records prs = any_columns (n, ne);
    const spoc_file f (wkt, true, prs);
    std::stringstream s;
    write_spoc_file (s, f);
    std::string got = s.str (), head = header_bytes (wkt, n ? ne : 0, n, 1);
    vs_check (got.size () >= head.size () && diff (got.substr (0, head.size ()), head) == 0, "compressed header bytes");
    size_t pos = head.size ();
    for (size_t k = 0; k < 9 + (n ? ne : 0); ++k)
    {
        std::string want;
        for (size_t j = 0; j < n; ++j)
        {
            const point_record &p = prs[j];
            switch (k)
            {
                case 0: put_v (want, p.x); break;
                case 1: put_v (want, p.y); break;
                case 2: put_v (want, p.z); break;
                case 3: put_v (want, p.c); break;
                case 4: put_v (want, p.p); break;
                case 5: put_v (want, p.i); break;
                case 6: put_v (want, p.r); break;
                case 7: put_v (want, p.g); break;
                case 8: put_v (want, p.b); break;
                default: put_v (want, p.extra[k - 9]); break;
            }
        }
        vs_check (pos + 8 <= got.size (), "compressed block length present");
        uint64_t len; memcpy (&len, got.data () + pos, 8); pos += 8;
        vs_check (len <= got.size () - pos, "compressed block inside the file");
        if (len == 0)
        {
            uint64_t any = 0;
            for (unsigned char c : want) any |= c;
            vs_check (any == 0, "a column with content was left out");
            continue;
        }
        std::vector<uint8_t> z (got.begin () + pos, got.begin () + pos + len);
        std::vector<uint8_t> raw = spoc::compression::decompress (z);
        vs_check (diff (std::string (raw.begin (), raw.end ()), want) == 0, "compressed block does not hold its column");
        pos += len;
    }
    vs_check (pos == got.size (), "nothing after the last block");
    vs_reach ("end");
}
