// Symbolic points, files and byte strings, and bit-exact comparison.
#pragma once
#include "rt.h"
#include "spoc/spoc.h"
using spoc::point_record::point_record;
using spoc::point_record::point_records;
using spoc::file::spoc_file;
static inline size_t pick (const char *name, std::initializer_list<size_t> l) { return l.begin ()[vs_choose (name, 0, l.size () - 1)]; }
static inline point_record any_point (size_t ne)
{
    point_record p (ne);
    p.x = vs_double ("x"); p.y = vs_double ("y"); p.z = vs_double ("z");
    p.c = vs_u32 ("c"); p.p = vs_u32 ("p");
    p.i = vs_u16 ("i"); p.r = vs_u16 ("r"); p.g = vs_u16 ("g"); p.b = vs_u16 ("b");
    for (size_t k = 0; k < ne; ++k) p.extra[k] = vs_u64 ("e");
    return p;
}
static inline point_records any_points (size_t n, size_t ne)
{
    point_records v;
    v.reserve (n);
    for (size_t k = 0; k < n; ++k) v.push_back (any_point (ne));
    return v;
}
// a number that can be typed: finite and not subnormal (std::stod reports those as out of range)
static inline double any_typed (const char *name)
{
    double v = vs_double (name);
    uint64_t e = vs_bits (v) >> 52 & 0x7ff;
    vs_assume (((e != 0) & (e != 0x7ff)) | (vs_bits (v) << 1 == 0));
    return v;
}
// more points than a 16-bit number can count, a few of them symbolic (without empty columns)
static inline point_records many_points (size_t ne)
{
    const size_t n = 65536 + 9;
    point_records v (n, point_record (ne));
    for (size_t k = 0; k < n; ++k)
    {
        v[k].p = (uint32_t) k; v[k].c = (uint32_t) (k & 31); v[k].i = (uint16_t) (k * 7);
        if (ne) v[k].extra[ne - 1] = k << 20;
    }
    for (size_t k : {(size_t) 0, (size_t) 65535, (size_t) 65536, n - 1})
    {
        v[k] = any_point (ne);
        vs_assume ((vs_bits (v[k].x) & vs_bits (v[k].y) & vs_bits (v[k].z) & v[k].c & v[k].p & v[k].i & v[k].r & v[k].g & v[k].b & 1) != 0);
        for (auto e : v[k].extra) vs_assume ((e & 1) != 0);
    }
    return v;
}
static inline std::string any_string (const char *name, size_t n)
{
    std::string s;
    for (size_t k = 0; k < n; ++k) s.push_back ((char) vs_u8 (name));
    return s;
}
// 0 when equal bit for bit, as one value: no branching on symbolic data
static inline uint64_t diff (const point_record &a, const point_record &b)
{
    if (a.extra.size () != b.extra.size ()) return 1;
    uint64_t d = vs_ne (vs_bits (a.x), vs_bits (b.x));
    d |= vs_ne (vs_bits (a.y), vs_bits (b.y));
    d |= vs_ne (vs_bits (a.z), vs_bits (b.z));
    d |= vs_ne (a.c, b.c);
    d |= vs_ne (a.p, b.p);
    d |= vs_ne (a.i, b.i);
    d |= vs_ne (a.r, b.r);
    d |= vs_ne (a.g, b.g);
    d |= vs_ne (a.b, b.b);
    for (size_t k = 0; k < a.extra.size (); ++k) d |= vs_ne (a.extra[k], b.extra[k]);
    return d;
}
static inline uint64_t diff (const point_records &a, const point_records &b)
{
    if (a.size () != b.size ()) return 1;
    uint64_t d = 0;
    for (size_t k = 0; k < a.size (); ++k) d |= diff (a[k], b[k]);
    return d;
}
static inline uint64_t diff (const std::string &a, const std::string &b)
{
    if (a.size () != b.size ()) return 1;
    uint64_t d = 0;
    for (size_t k = 0; k < a.size (); ++k) d |= vs_ne ((unsigned char) a[k], (unsigned char) b[k]);
    return d;
}
static inline uint64_t diff (const spoc_file &a, const spoc_file &b)
{
    return diff (a.get_point_records (), b.get_point_records ()) | diff (a.get_wkt (), b.get_wkt ()) | (a.get_compressed () != b.get_compressed ())
        | (a.get_major_version () ^ b.get_major_version ()) | (a.get_minor_version () ^ b.get_minor_version ());
}
static inline void observe (const point_record &p)
{
    vs_observe ("x", vs_bits (p.x)); vs_observe ("y", vs_bits (p.y)); vs_observe ("z", vs_bits (p.z));
    vs_observe ("cp", ((uint64_t) p.c << 32) | p.p);
    vs_observe ("irgb", ((uint64_t) p.i << 48) | ((uint64_t) p.r << 32) | ((uint64_t) p.g << 16) | p.b);
    for (auto e : p.extra) vs_observe ("e", e);
}
static inline void observe (const point_records &v) { vs_observe ("n", v.size ()); for (auto &p : v) observe (p); }
static inline void observe_bytes (const std::string &s)
{
    vs_observe ("len", s.size ());
    for (unsigned char c : s) vs_observe ("byte", c);
}
// Points for the compressed encoding, which looks for columns without content: columns outside of
// a window of two have a first point whose low byte is not zero, which keeps the paths few.
static inline point_records any_columns (size_t n, size_t ne)
{
    point_records v = any_points (n, ne);
    if (n == 0) return v;
    size_t w = vs_choose ("window", 0, 8 + ne);
    const size_t cols = 9 + ne;
    const point_record &p = v[0];
    uint64_t b[] = {vs_bits (p.x), vs_bits (p.y), vs_bits (p.z), p.c, p.p, p.i, p.r, p.g, p.b};
    for (size_t k = 0; k < cols; ++k)
        if (k != w && k != (w + 1) % cols)
            vs_assume (((k < 9 ? b[k] : p.extra[k - 9]) & 0xff) != 0);
    return v;
}
// the documented layout, written independently of the library
static inline void put (std::string &s, const void *p, size_t n) { s.append ((const char *) p, n); }
template<typename T> static inline void put_v (std::string &s, T v) { put (s, &v, sizeof v); }
static inline std::string header_bytes (const std::string &wkt, uint8_t extra, uint64_t total, uint8_t comp)
{
    std::string s = "SPOC";
    put_v<uint8_t> (s, spoc::MAJOR_VERSION); put_v<uint8_t> (s, spoc::MINOR_VERSION);
    put_v<uint16_t> (s, (uint16_t) wkt.size ());
    s += wkt;
    put_v<uint8_t> (s, extra); put_v<uint64_t> (s, total); put_v<uint8_t> (s, comp);
    return s;
}
static inline void record_bytes (std::string &s, const point_record &p)
{
    put_v (s, p.x); put_v (s, p.y); put_v (s, p.z); put_v<uint32_t> (s, p.c); put_v<uint32_t> (s, p.p);
    put_v<uint16_t> (s, p.i); put_v<uint16_t> (s, p.r); put_v<uint16_t> (s, p.g); put_v<uint16_t> (s, p.b);
    for (uint64_t e : p.extra) put_v<uint64_t> (s, e);
}
static inline std::string file_bytes (const std::string &wkt, const point_records &p)
{
    std::string s = header_bytes (wkt, p.empty () ? 0 : (uint8_t) p[0].extra.size (), p.size (), 0);
    for (auto &q : p) record_bytes (s, q);
    return s;
}
// arbitrary bytes in front of a reader: a declared WKT length among a few (every length is its own path)
static inline void bound_wkt (const std::string &b)
{
    if (b.size () < 8) return;
    unsigned lo = (unsigned char) b[6], hi = (unsigned char) b[7];
    vs_assume (((hi == 0) & ((lo < 9) | (lo == 255))) | ((hi == 1) & (lo == 0)) | ((hi == 255) & (lo == 255)));
}
