// zlib's contract, as far as the code under test relies on it: deflate turns a byte sequence into a
// self-delimiting stream from which inflate recovers exactly that sequence. The codec here stores
// the bytes (2 magic bytes, 8 length bytes, the data, 1 end byte), keeps to the documented return
// codes and works through arbitrarily small output windows.
#include <string>
#include <cstdint>
#include <cstring>
#include <zlib.h>
namespace
{
struct Z { std::string in, out; size_t pos = 0; bool done = false; int state = 0; uint64_t len = 0; size_t got = 0; };
void give (z_stream *s, Z *z)
{
    size_t k = z->out.size () - z->pos;
    if (k > s->avail_out) k = s->avail_out;
    if (k) { memcpy (s->next_out, z->out.data () + z->pos, k); s->next_out += k; s->avail_out -= (unsigned) k; z->pos += k; s->total_out += k; }
}
}
extern "C" {
int deflateInit_ (z_stream *s, int level, const char *, int)
{
    if (level < -1 || level > 9) return Z_STREAM_ERROR;
    s->state = (internal_state *) new Z; s->total_in = s->total_out = 0; s->msg = nullptr;
    return Z_OK;
}
int deflateEnd (z_stream *s) { if (!s->state) return Z_STREAM_ERROR; delete (Z *) s->state; s->state = nullptr; return Z_OK; }
int deflate (z_stream *s, int flush)
{
    Z *z = (Z *) s->state;
    if (!z || !s->next_out || (s->avail_in && !s->next_in)) return Z_STREAM_ERROR;
    if (z->done && s->avail_in) return Z_STREAM_ERROR;
    if (!s->avail_out) return Z_BUF_ERROR;
    bool progress = s->avail_in != 0;
    if (s->avail_in)
    {
        z->in.append ((const char *) s->next_in, s->avail_in);
        s->next_in += s->avail_in; s->total_in += s->avail_in; s->avail_in = 0;
    }
    if (flush == Z_FINISH && !z->done)
    {
        z->done = true;
        char h[10] = {0x78, 0x5c}; uint64_t n = z->in.size (); memcpy (h + 2, &n, 8);
        z->out.assign (h, 10); z->out += z->in; z->out += (char) 0x5a;
    }
    size_t before = z->pos;
    give (s, z);
    if (z->done && z->pos == z->out.size ()) return Z_STREAM_END;
    return progress || z->pos != before || flush == Z_FINISH ? Z_OK : Z_BUF_ERROR;
}
int inflateInit_ (z_stream *s, const char *, int)
{
    s->state = (internal_state *) new Z; s->total_in = s->total_out = 0; s->msg = nullptr;
    return Z_OK;
}
int inflateEnd (z_stream *s) { if (!s->state) return Z_STREAM_ERROR; delete (Z *) s->state; s->state = nullptr; return Z_OK; }
int inflate (z_stream *s, int)
{
    Z *z = (Z *) s->state;
    if (!z || !s->next_out || (s->avail_in && !s->next_in)) return Z_STREAM_ERROR;
    if (z->state == 9) return Z_DATA_ERROR;
    bool progress = false;
    // header
    while (z->state < 10 - 1 && z->in.size () < 10 && s->avail_in && z->state == 0)
    {
        unsigned char c = *s->next_in++; --s->avail_in; ++s->total_in; progress = true;
        if ((z->in.size () == 0 && c != 0x78) || (z->in.size () == 1 && c != 0x5c)) { z->state = 9; return Z_DATA_ERROR; }
        z->in += (char) c;
        if (z->in.size () == 10) { memcpy (&z->len, z->in.data () + 2, 8); z->state = 1; }
    }
    if (z->state == 1)
    {
        while (z->got < z->len && s->avail_in && s->avail_out)
        {
            size_t k = z->len - z->got;
            if (k > s->avail_in) k = s->avail_in;
            if (k > s->avail_out) k = s->avail_out;
            memcpy (s->next_out, s->next_in, k);
            s->next_out += k; s->avail_out -= (unsigned) k; s->next_in += k; s->avail_in -= (unsigned) k; z->got += k; s->total_in += k; s->total_out += k;
            progress = true;
        }
        if (z->got == z->len && s->avail_in)
        {
            unsigned char c = *s->next_in++; --s->avail_in; ++s->total_in; progress = true;
            if (c != 0x5a) { z->state = 9; return Z_DATA_ERROR; }
            z->state = 2;
        }
    }
    if (z->state == 2) return Z_STREAM_END;
    return progress ? Z_OK : Z_BUF_ERROR;
}
}
