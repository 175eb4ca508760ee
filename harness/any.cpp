// C06: readers on arbitrary bytes. inflate is replaced by a stub that may return anything its
// documentation allows: any output, any length, any return code.
#include "gen.h"
#include <stdexcept>
using namespace spoc::io;
extern "C" {
int deflateInit_ (z_stream *, int, const char *, int) { return Z_OK; }
int deflateEnd (z_stream *) { return Z_OK; }
int deflate (z_stream *, int) { return Z_STREAM_END; }
int inflateInit_ (z_stream *s, const char *, int) { s->state = (internal_state *) s; s->msg = nullptr; return Z_OK; }
int inflateEnd (z_stream *) { return Z_OK; }
static int calls;
int inflate (z_stream *s, int)
{
    // ways: end with k bytes, error codes, progress without end, no progress
    static const int rets[] = {Z_STREAM_END, Z_DATA_ERROR, Z_MEM_ERROR, Z_NEED_DICT, Z_BUF_ERROR, Z_OK, Z_STREAM_ERROR};
    ++calls;
    size_t way = calls <= 3 ? vs_choose ("way", 0, 6) : vs_choose ("way", 0, 1);
    size_t n = way == 0 ? (calls <= 3 ? vs_choose ("len", 0, 17) : 2 * vs_choose ("len", 0, 4)) : way == 5 ? 3 : 0;
    if (n > s->avail_out) n = s->avail_out;
    for (size_t k = 0; k < n; ++k) s->next_out[k] = vs_u8 ("z");
    s->next_out += n; s->avail_out -= n; s->total_out += n;
    if (way == 0 || way == 5) { s->next_in += s->avail_in; s->avail_in = 0; }
    return rets[way];
}
}
static int attempt (const std::string &b, int api, spoc_file &f)
{
    std::stringstream s (b);
    calls = 0;
    try
    {
        vs_must_terminate (20000000);
        if (api == 0) f = read_spoc_file (s);
        else if (api == 1) f = read_spoc_file_uncompressed (s);
        else f = read_spoc_file_compressed (s);
        vs_terminated ();
    }
    catch (const std::exception &) { vs_terminated (); return 1; }
    return 0;
}
// arbitrary short inputs
extern "C" void any_bytes ()
{
    vs_alloc_limit (2200);
    size_t n = vs_choose ("n", 0, vs_tier () ? 40 : 30);
    std::string b = any_string ("b", n);
    bound_wkt (b);
    // which number of points the header declares: a few small ones or ones that cannot be allocated
    if (n >= 18)
    {
        uint64_t hi = 0;
        for (size_t k = 10; k < 17; ++k) hi |= (unsigned char) b[k];
        vs_assume (((hi == 0) & ((unsigned char) b[9] < 4)) | ((unsigned char) b[16] > 0x10));
        vs_assume (((unsigned char) b[8] < 3) | ((unsigned char) b[8] > 253));
        unsigned len = (unsigned char) b[6] | ((unsigned char) b[7] << 8);
        vs_assume ((len == 0) | (len > n - 18));
    }
    if (n >= 26)
    {
        uint64_t hi = 0;
        for (size_t k = 19; k < 25; ++k) hi |= (unsigned char) b[k];
        vs_assume (((hi == 0) & ((unsigned char) b[18] < 4)) | ((unsigned char) b[25] > 0x10));
    }
    int api = (int) vs_choose ("api", 0, 2);
    spoc_file f;
    if (attempt (b, api, f)) { vs_reach ("refused"); return; }
    vs_check (f.is_valid (), "a file that was read is valid");
    vs_check (n >= 18, "too few bytes for a header");
    vs_reach ("accepted");
}
// a well-formed header with arbitrary declared sizes, then arbitrary bytes
static std::string head (uint8_t comp, uint8_t &ne, uint64_t &total)
{
    ne = vs_u8 ("ne"); total = vs_u64 ("total");
    return header_bytes (std::string (), ne, total, comp);
}
extern "C" void any_uncompressed ()
{
    vs_alloc_limit (vs_tier () ? 4096 : 2200);
    uint8_t ne; uint64_t total;
    std::string b = head (0, ne, total);
    static const size_t len[] = {0, 1, 39, 40, 41, 47, 48, 80, 96, 97};
    size_t n = len[vs_choose ("n", 0, 9)];
    vs_assume ((ne < 4) | (ne > 253));
    vs_assume ((total < 4) | (total == 24) | (total > 1ull << 60) | (total == 1ull << 32));
    std::string body = any_string ("b", n);
    b += body;
    spoc_file f;
    if (attempt (b, 0, f)) { vs_check (!((total == 0) | ((total == 1) & (40 + 8 * (size_t) ne <= n)) | ((total == 2) & (80 + 16 * (size_t) ne <= n))), "a complete file was refused"); vs_reach ("refused"); return; }
    size_t got = f.get_point_records ().size ();
    vs_check (vs_ne (got, total) == 0, "the declared number of points was read");
    vs_check (got == 0 || vs_ne (f.get_extra_fields (), ne) == 0, "the declared number of extra fields was read");
    vs_check (got * (40 + 8 * f.get_extra_fields ()) <= n, "no more records than the bytes hold");
    // the records are the bytes
    std::string back;
    for (auto &p : f.get_point_records ()) record_bytes (back, p);
    vs_check (diff (back, body.substr (0, back.size ())) == 0, "records are the bytes of the file");
    vs_check (f.is_valid (), "valid");
    vs_reach ("accepted");
}
extern "C" void any_compressed ()
{
    vs_alloc_limit ((1 << 20) + 64);
    uint8_t ne; uint64_t total;
    std::string b = head (1, ne, total);
    vs_assume ((ne < 2) | (ne > 254));
    vs_assume ((total < 3) | (total > 1ull << 40));
    // each column: length (arbitrary), then that many bytes or fewer
    size_t cols = vs_choose ("cols", 0, 4);
    static const uint64_t lens[] = {0, 1, 2, 9, ~0ull, 1ull << 63};
    for (size_t k = 0; k < cols; ++k)
    {
        uint64_t l = k < 2 ? lens[vs_choose ("l", 0, 5)] : 1;
        put_v (b, l);
        if (l < 10) b += any_string ("b", l);
    }
    if (vs_choose ("rest", 0, 1)) b += std::string (8 * 300, '\0');
    spoc_file f;
    if (attempt (b, 0, f)) { vs_reach ("refused"); return; }
    size_t got = f.get_point_records ().size ();
    vs_check (vs_ne (got, total) == 0, "the declared number of points was read");
    vs_check (got == 0 || vs_ne (f.get_extra_fields (), ne) == 0, "the declared number of extra fields was read");
    vs_check (f.is_valid (), "valid");
    vs_reach ("accepted");
}
// decompress into a given output size
extern "C" void any_block ()
{
    size_t n = vs_choose ("n", 0, 3);
    std::vector<uint8_t> in;
    for (size_t k = 0; k < n; ++k) in.push_back (vs_u8 ("b"));
    static uint8_t out[16];
    size_t want = 8 * vs_choose ("want", 0, 2);
    calls = 0;
    vs_must_terminate (20000000);
    try { spoc::compression::decompress (in, out, want); vs_terminated (); }
    catch (const std::exception &) { vs_terminated (); vs_reach ("refused"); return; }
    vs_reach ("accepted");
}
