// C26: byte compression. The MODEL build replaces zlib by its interface contract: how much a call takes and
// gives is arbitrary, so the sizes can be anything; the other build uses the stored-block codec.
#include "apps.h"
#include "spoc/compression.h"
using namespace spoc::compression;
typedef std::vector<uint8_t> bytes;
// a device to read from: 'size' bytes, of which the first and last are marked; fails after 'good' bytes
struct source : std::streambuf
{
    uint64_t size, good, pos = 0;
    source (uint64_t n, uint64_t g) : size (n), good (g) {}
    std::streamsize xsgetn (char *p, std::streamsize n) override
    {
        uint64_t k = size - pos;
        if (k > (uint64_t) n) k = (uint64_t) n;
        if (pos + k > good) throw std::runtime_error ("device");
        if (k) { p[0] = (char) (pos % 251); p[k - 1] = (char) ((pos + k - 1) % 251); }
        pos += k;
        return (std::streamsize) k;
    }
    int_type underflow () override { return EOF; }
};
struct sink : std::streambuf
{
    uint64_t size = 0, room; bool broken = false; uint64_t marks = 0; bool ok = true;
    std::string data; bool keep = false;
    explicit sink (uint64_t r = ~0ull) : room (r) {}
    std::streamsize xsputn (const char *p, std::streamsize n) override;
    int_type overflow (int_type c) override { char ch = (char) c; return c == EOF || xsputn (&ch, 1) == 1 ? c : EOF; }
};
#ifdef MODEL
// ------------------------------------------------------------ the contract
static const uint8_t *base; // where the input starts, when it is one block
static uint64_t total, taken, given, handed; // bytes of the input; consumed; produced; seen by zlib so far
static bool ended, failed, finishing; static int inits, ends, calls, fulls, level_seen, init_result;
static int first_full;
static uint64_t at[8]; static int nat; // where each piece of output starts
static uint8_t *prev_out;
static void reset (const uint8_t *b, uint64_t n) { base = b; total = n; taken = given = handed = 0; ended = failed = finishing = false; inits = ends = calls = fulls = nat = 0; init_result = Z_OK; }
static void give (z_stream *s, uint64_t n)
{
    // the whole window belongs to the caller
    s->next_out[0] = 0; s->next_out[s->avail_out - 1] = 0;
    if (n)
    {
        vs_check (nat < 8, "few pieces");
        s->next_out[n - 1] = (uint8_t) (nat + 101);
        s->next_out[0] = (uint8_t) (nat + 1);
        at[nat++] = given;
    }
    s->next_out += n; s->avail_out -= (uInt) n; given += n;
}
static void take (z_stream *s, uint64_t n) { s->next_in += n; s->avail_in -= (uInt) n; taken += n; }
static void input (z_stream *s)
{
    vs_check (inits == 1 && ends == 0, "the stream is in use");
    vs_check (s->next_out != nullptr && s->avail_out != 0, "there is room for output");
    if (base && s->avail_in) vs_check (s->next_in == base + taken, "zlib continues where it stopped");
    vs_check (taken + s->avail_in <= total, "no more input than there is");
    vs_check (taken + s->avail_in >= handed, "no input is taken back");
    handed = taken + s->avail_in;
    if (!base && s->avail_in)
    {
        // the pieces of a stream are handed over in order
        if (s->next_in[s->avail_in - 1] != (uint8_t) ((handed - 1) % 251)) vs_fail ("the input is handed over in order");
    }
}
extern "C" {
int deflateInit_ (z_stream *s, int level, const char *, int) { level_seen = level; if (init_result == Z_OK) ++inits; s->state = nullptr; return init_result; }
int deflateEnd (z_stream *) { ++ends; return Z_OK; }
int inflateInit_ (z_stream *s, const char *, int) { if (init_result == Z_OK) ++inits; s->state = nullptr; return init_result; }
int inflateEnd (z_stream *) { ++ends; return Z_OK; }
int deflate (z_stream *s, int flush)
{
    vs_check (++calls < 16, "compression ends");
    vs_check (flush == Z_NO_FLUSH || flush == Z_FINISH, "the mode is known");
    input (s);
    if (finishing) vs_check (flush == Z_FINISH && taken + s->avail_in == handed, "nothing follows the end");
    if (flush == Z_FINISH) { vs_check (taken + s->avail_in == total, "the end is announced after all of the input"); finishing = true; }
    if (ended) return Z_STREAM_END;
    // a full window leaves the rest for the next call; otherwise everything is taken
    const bool full = fulls < 2 && vs_choose ("full", 0, 1);
    if (full)
    {
        ++fulls;
        uint64_t n = vs_u32 ("some");
        vs_assume (n <= s->avail_in);
        take (s, n); give (s, s->avail_out);
        // the output may happen to be complete
        if (flush == Z_FINISH && vs_choose ("complete", 0, 1)) { vs_assume (s->avail_in == 0); ended = true; return Z_STREAM_END; }
        return Z_OK;
    }
    const bool any = s->avail_in != 0;
    take (s, s->avail_in);
    if (flush == Z_FINISH) { give (s, pick ("last", {1, 7, (1 << 20) - 1})); ended = true; return Z_STREAM_END; }
    if (!any) return Z_BUF_ERROR;
    give (s, nat & 1 ? 5 : 0);
    return Z_OK;
}
int inflate (z_stream *s, int flush)
{
    vs_check (++calls < 16, "decompression ends");
    vs_check (flush == Z_NO_FLUSH, "the mode is known");
    input (s);
    if (ended) return Z_STREAM_END;
    const int what = (int) vs_choose ("what", 0, fulls < 2 ? 3 : 2);
    if (what == 0) // damaged
    {
        static const int E[] = {Z_DATA_ERROR, Z_MEM_ERROR, Z_NEED_DICT};
        failed = true;
        return E[vs_choose ("error", 0, 2)];
    }
    if (what == 3) // a full window
    {
        ++fulls;
        uint64_t n = vs_u32 ("some");
        vs_assume (n <= s->avail_in);
        take (s, n); give (s, s->avail_out);
        if (vs_choose ("complete", 0, 1)) { ended = true; return Z_STREAM_END; }
        return Z_OK;
    }
    if (what == 2) // the end, perhaps before the end of the input
    {
        uint64_t n = vs_u32 ("some");
        vs_assume (n <= s->avail_in);
        take (s, n); give (s, pick ("last", {0, 1, (1 << 20) - 1}));
        ended = true;
        return Z_STREAM_END;
    }
    if (s->avail_in == 0) return Z_BUF_ERROR;
    take (s, s->avail_in); give (s, nat & 1 ? 5 : 0);
    return Z_OK;
}
}
std::streamsize sink::xsputn (const char *p, std::streamsize n)
{
    uint64_t k = (uint64_t) n;
    if (size + k > room) k = room - size;
    // each piece arrives where it belongs
    for (int j = 0; j < nat; ++j)
        if (at[j] >= size && at[j] < size + k) { ++marks; ok &= (uint8_t) p[at[j] - size] == j + 1; }
    size += k;
    broken |= k != (uint64_t) n;
    return (std::streamsize) k;
}
static void check_output (const bytes &out)
{
    vs_check (out.size () == given, "all of the output is kept");
    bool ok = true;
    for (int j = 0; j < nat; ++j) ok &= out[at[j]] == j + 1;
    for (int j = 0; j < nat; ++j)
    {
        uint64_t last = (j + 1 < nat ? at[j + 1] : given) - 1;
        ok &= out[last] == (last == at[j] ? j + 1 : j + 101);
    }
    vs_check (ok, "the pieces of output are in order");
}
// blocks of any size: the memory is never touched by the code, only by zlib
static uint64_t any_size ()
{
    const uint64_t most = 0xffffffff, r = vs_u32 ("r");
    vs_assume (r != most);
    const uint64_t times = vs_choose ("times", 0, vs_tier () ? 4 : 2);
    first_full = times > 1 && !vs_tier () ? 1 : 0;
    return times * most + r;
}
extern "C" void compress_block ()
{
    static uint8_t memory[16];
    const uint64_t n = any_size ();
    reset (memory, n);
    fulls = first_full;
    int level = 9;
    if (vs_choose ("level?", 0, 1)) { level = (int) vs_choose ("level", 0, 10) - 1; fulls = 2; }
    const bytes out = compress (memory, n, level);
    vs_check (level_seen == level, "the level is used");
    vs_check (inits == 1 && ends == 1, "the stream is released once");
    vs_check (ended && taken == n, "all of the input is compressed");
    check_output (out);
    vs_reach ("end");
}
struct block { const uint8_t *b, *e, *c; }; // a vector of bytes that do not exist
extern "C" void decompress_block ()
{
    static uint8_t memory[16];
    const uint64_t n = any_size ();
    reset (memory, n);
    fulls = first_full;
    const block v {memory, memory + n, memory + n};
    bytes out; bool thrown = false;
    try { out = decompress (reinterpret_cast<const bytes &> (v)); } catch (const std::exception &) { thrown = true; }
    vs_check (inits == 1 && ends == 1, "the stream is released once");
    vs_check (thrown == !ended, "exactly a stream that is damaged or does not end is an error");
    if (!thrown) { check_output (out); vs_reach ("complete"); } else vs_reach ("refused");
    if (thrown && !failed) vs_check (handed == n, "the input is used up before it is called incomplete");
}
extern "C" void start_failures ()
{
    static uint8_t memory[16];
    reset (memory, 3);
    init_result = vs_choose ("result", 0, 1) ? Z_MEM_ERROR : Z_STREAM_ERROR;
    const int what = (int) vs_choose ("what", 0, 3);
    bool thrown = false;
    source in (3, 3); sink o; std::istream is (&in); std::ostream os (&o);
    const bytes three (3);
    try
    {
        if (what == 0) compress (memory, 3, 42);
        else if (what == 1) decompress (three);
        else if (what == 2) compress (is, os, 42);
        else decompress (is, os);
    }
    catch (const std::exception &) { thrown = true; }
    vs_check (thrown && calls == 0 && ends == 0 && o.size == 0, "a stream that cannot be set up is an error");
    vs_reach ("end");
}
static const uint64_t B = 1 << 20;
static uint64_t stream_size () { return pick ("n", {0, 1, 2, B - 1, B, B + 1, 2 * B}); }
extern "C" void compress_stream ()
{
    const uint64_t n = stream_size ();
    reset (nullptr, n);
    const int bad = (int) vs_choose ("bad", 0, 3);
    source in (n, bad == 1 ? (n ? n - 1 : 0) : n);
    sink o (bad == 2 ? vs_choose ("room", 0, 9) : ~0ull);
    std::istream is (&in); std::ostream os (&o);
    if (bad == 3) is.setstate (std::ios::failbit);
    vs_must_terminate (40000000);
    bool thrown = false;
    try { compress (is, os, 1); } catch (const std::exception &) { thrown = true; }
    vs_terminated ();
    vs_check (inits == 1 && ends == 1, "the stream is released once");
    if ((bad == 1 && n) || bad == 3 || o.broken) { vs_check (thrown, "a stream that fails is an error"); vs_reach ("failed"); return; }
    vs_check (!thrown && ended && taken == n, "all of the input is compressed");
    vs_check (o.size == given && o.ok && (int) o.marks == nat, "all of the output is written in order");
    vs_reach ("end");
}
extern "C" void decompress_stream ()
{
    const uint64_t n = stream_size ();
    reset (nullptr, n);
    const int bad = (int) vs_choose ("bad", 0, 3);
    source in (n, bad == 1 ? (n ? n - 1 : 0) : n);
    sink o (bad == 2 ? vs_choose ("room", 0, 9) : ~0ull);
    std::istream is (&in); std::ostream os (&o);
    if (bad == 3) is.setstate (std::ios::failbit);
    vs_must_terminate (40000000);
    bool thrown = false;
    try { decompress (is, os); } catch (const std::exception &) { thrown = true; }
    vs_terminated ();
    vs_check (inits == 1 && ends == 1, "the stream is released once");
    vs_check (thrown == (!ended || o.broken), "exactly a stream that fails, is damaged or does not end is an error");
    if (!thrown) vs_check (o.size == given && o.ok && (int) o.marks == nat, "all of the output is written in order");
    vs_reach (thrown ? "failed" : "end");
}
#else
std::streamsize sink::xsputn (const char *p, std::streamsize n) { data.append (p, n); size += n; return n; }
static bytes any_bytes (size_t n) { bytes b (n); for (auto &c : b) c = vs_u8 ("b"); return b; }
static uint64_t diff (const bytes &a, const bytes &b)
{
    if (a.size () != b.size ()) return 1;
    uint64_t d = 0;
    for (size_t k = 0; k < a.size (); ++k) d |= vs_ne (a[k], b[k]);
    return d;
}
// round trips, whole and with streams
extern "C" void round_trip ()
{
    const bytes b = any_bytes (vs_choose ("n", 0, 5));
    const int level = (int) vs_choose ("level", 0, 10) - 1;
    const bytes c = compress (b, level);
    vs_check (diff (decompress (c), b) == 0, "the bytes come back");
    vs_check (diff (compress (b.data (), b.size (), level), c) == 0, "both forms agree");
    std::istringstream is (std::string (b.begin (), b.end ()));
    std::stringstream mid, out;
    compress (is, mid, level);
    const std::string m = mid.str ();
    vs_check (diff (bytes (m.begin (), m.end ()), c) == 0, "streams and blocks agree");
    decompress (mid, out);
    const std::string o = out.str ();
    vs_check (diff (bytes (o.begin (), o.end ()), b) == 0, "the bytes come back through streams");
    vs_reach ("end");
}
// a given number of bytes is expected
extern "C" void expected_size ()
{
    const bytes b = any_bytes (vs_choose ("n", 0, 4));
    const size_t want = vs_choose ("want", 0, 5);
    bytes out (want + 1, 77);
    bool thrown = false;
    try { decompress (compress (b), out.data (), want); } catch (const std::exception &) { thrown = true; }
    vs_check (thrown == (want != b.size ()), "a different size is an error");
    vs_check (out[want] == 77, "nothing is written behind the output");
    if (!thrown) { out.pop_back (); vs_check (diff (out, b) == 0, "the bytes come back"); }
    vs_reach (thrown ? "refused" : "accepted");
}
// cut and damaged streams
extern "C" void damaged ()
{
    const bytes b = any_bytes (vs_choose ("n", 0, 3));
    bytes c = compress (b);
    const bool cut = vs_choose ("cut", 0, 1);
    if (cut) c.resize (vs_choose ("left", 0, c.size () - 1));
    else { size_t at = pick ("at", {0, 1, c.size () - 1}); uint8_t v = vs_u8 ("v"); vs_assume (v != c[at]); c[at] = v; }
    const int how = (int) vs_choose ("how", 0, 2);
    bool thrown = false;
    bytes d (b.size ());
    std::stringstream out;
    try
    {
        if (how == 0) decompress (c);
        else if (how == 1) decompress (c, d.data (), d.size ());
        else { std::istringstream is (std::string (c.begin (), c.end ())); decompress (is, out); }
    }
    catch (const std::exception &) { thrown = true; }
    vs_check (thrown, "a cut or damaged stream is an error");
    vs_reach ("end");
}
// around the size of the buffers
extern "C" void large_round_trip ()
{
    const size_t B = 1 << 20, n = pick ("n", {B - 12, B - 11, B - 10, B - 1, B, B + 1, 2 * B});
    bytes b (n);
    for (size_t k = 0; k < n; k += 4099) b[k] = (uint8_t) (k / 4099 + 1);
    for (size_t k : {size_t (0), B - 13, B - 12, n - 1}) if (k < n) b[k] = vs_u8 ("b");
    const bytes c = compress (b);
    const bytes d = decompress (c);
    vs_check (d.size () == n, "the size comes back");
    uint64_t bad = 0;
    for (size_t k = 0; k < n; k += 4099) bad |= vs_ne (b[k], d[k]);
    for (size_t k : {size_t (0), B - 13, B - 12, n - 1}) if (k < n) bad |= vs_ne (b[k], d[k]);
    vs_check (bad == 0, "the bytes come back");
    vs_reach ("end");
}
#endif
