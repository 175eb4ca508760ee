// C33: JSON values print as text that reads back as the same value
#include "rt.h"
#include <iomanip>
#include "spoc/json.h"
namespace js = spoc::json;
// a tree that is known to the reader
struct node
{
    enum { U8, U16, U32, U64, INT, CHAR, BOOL, DOUBLE, FLOAT, STRING, CSTRING, ARRAY, OBJECT, KINDS } kind;
    uint64_t bits;
    std::string text;
    std::vector<std::string> keys;
    std::vector<node> kids;
};
static js::value to_json (const node &n)
{
    switch (n.kind)
    {
        case node::U8: return js::value ((uint8_t) n.bits);
        case node::U16: return js::value ((uint16_t) n.bits);
        case node::U32: return js::value ((uint32_t) n.bits);
        case node::U64: return js::value ((uint64_t) n.bits);
        case node::INT: return js::value ((int) n.bits);
        case node::CHAR: return js::value ((char) n.bits);
        case node::BOOL: return js::value (n.bits != 0);
        case node::DOUBLE: return js::value (vs_unbits (n.bits));
        case node::FLOAT: return js::value ((float) vs_unbits (n.bits));
        case node::STRING: return js::value (n.text);
        case node::CSTRING: return js::value ((const char *) n.text.c_str ());
        case node::ARRAY: { js::array a; for (auto &k : n.kids) a.push_back (to_json (k)); return js::value (a); }
        default: { js::object o; for (size_t k = 0; k < n.kids.size (); ++k) o[n.keys[k]] = to_json (n.kids[k]); return js::value (o); }
    }
}
static bool space (char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
struct reader
{
    const std::string &s;
    size_t pos;
    bool one_line;
    void skip () { for (; pos < s.size () && space (s[pos]); ++pos) vs_check (!one_line || s[pos] != '\n', "compact text has no line breaks of its own"); }
    void ch (char c)
    {
        skip ();
        const bool ok = pos < s.size () && s[pos] == c;
        vs_check (ok, "the text has the form of the value");
        if (!ok) vs_stop ();
        ++pos;
    }
    void word (const char *w) { skip (); for (; *w; ++w) { const bool ok = pos < s.size () && s[pos] == *w; vs_check (ok, "the text has the form of the value"); if (!ok) vs_stop (); ++pos; } }
    void quoted (const std::string &t)
    {
        ch ('\'');
        uint64_t bad = 0;
        vs_check (pos + t.size () < s.size (), "a text is printed completely");
        if (pos + t.size () >= s.size ()) vs_stop ();
        for (char c : t) bad |= vs_ne ((uint8_t) s[pos++], (uint8_t) c);
        vs_check (bad == 0, "a text is printed as it is");
        ch ('\'');
    }
    void integer (uint64_t want, uint64_t negative = 0)
    {
        skip ();
        uint64_t v = 0, minus = 0;
        vs_check (vs_get_int (s, pos, v, &minus), "a number is printed");
        vs_check ((vs_ne (v, want) | vs_ne (minus, negative)) == 0, "a number is printed as it is");
    }
    void decimal (double want, int precision)
    {
        skip ();
        std::ostringstream o;
        o << std::setprecision (precision) << want;
        size_t p = 0;
        double v = 0, w = 0;
        vs_check (vs_get_double (o.str (), p, w) && vs_get_double (s, pos, v), "a number is printed");
        vs_check (vs_ne (vs_bits (v), vs_bits (w)) == 0, "a number is printed with the precision of the stream");
    }
    void value (const node &n, int precision)
    {
        switch (n.kind)
        {
            case node::U8: integer ((uint8_t) n.bits); break;
            case node::U16: integer ((uint16_t) n.bits); break;
            case node::U32: integer ((uint32_t) n.bits); break;
            case node::U64: integer (n.bits); break;
            case node::INT: integer ((uint64_t) (int64_t) (int) n.bits, (uint32_t) n.bits >> 31); break;
            case node::CHAR: integer ((uint64_t) (int64_t) (char) n.bits, (uint8_t) n.bits >> 7); break;
            case node::BOOL: word (n.bits ? "true" : "false"); break;
            case node::DOUBLE: decimal (vs_unbits (n.bits), precision); break;
            case node::FLOAT: decimal ((double) (float) vs_unbits (n.bits), precision); break;
            case node::STRING: case node::CSTRING: quoted (n.text); break;
            case node::ARRAY:
                ch ('[');
                for (size_t k = 0; k < n.kids.size (); ++k) { if (k) ch (','); value (n.kids[k], precision); }
                ch (']');
                break;
            default:
            {
                // members are printed in the order of their names
                std::vector<size_t> order;
                for (size_t k = 0; k < n.kids.size (); ++k) order.push_back (k);
                for (size_t a = 1; a < order.size (); ++a)
                    for (size_t b = a; b > 0 && n.keys[order[b]] < n.keys[order[b - 1]]; --b) std::swap (order[b], order[b - 1]);
                ch ('{');
                for (size_t k = 0; k < order.size (); ++k) { if (k) ch (','); quoted (n.keys[order[k]]); ch (':'); value (n.kids[order[k]], precision); }
                ch ('}');
            }
        }
    }
};
static std::string any_text (size_t n)
{
    std::string t;
    for (size_t k = 0; k < n; ++k) { char c = (char) vs_u8 ("char"); t += c; }
    return t;
}
static node any_leaf (int kind)
{
    node n; n.kind = (decltype (n.kind)) kind; n.bits = 0;
    if (kind == node::DOUBLE || kind == node::FLOAT)
    {
        double d = vs_double ("number");
        // the text of infinities and undefined values is not specified
        vs_assume (d - d == 0);
        if (kind == node::FLOAT) { const float f = (float) d; vs_assume (f - f == 0); }
        n.bits = vs_bits (d);
    }
    else if (kind == node::STRING || kind == node::CSTRING)
    {
        n.text = any_text (vs_choose ("length", 0, 2));
        if (kind == node::CSTRING) for (char c : n.text) vs_assume (c != 0);
    }
    else if (kind == node::BOOL) n.bits = vs_choose ("bool", 0, 1);
    else n.bits = vs_u64 ("value");
    return n;
}
static void check (const node &n, int indent)
{
    const js::value v = to_json (n);
    const bool pretty = vs_choose ("pretty", 0, 1) != 0;
    const int precision = vs_choose ("precision", 0, 1) ? 15 : 6;
    std::ostringstream o;
    o << std::setprecision (precision);
    if (pretty)
    {
        // the same through the value and through its own type
        if (n.kind == node::ARRAY && indent & 1) js::pretty_print (o, std::any_cast<js::array> (v), indent);
        else if (n.kind == node::OBJECT && indent & 1) js::pretty_print (o, std::any_cast<js::object> (v), indent);
        else js::pretty_print (o, v, indent);
    }
    else
    {
        if (n.kind == node::ARRAY && indent & 1) js::operator<< (o, std::any_cast<js::array> (v));
        else if (n.kind == node::OBJECT && indent & 1) js::operator<< (o, std::any_cast<js::object> (v));
        else js::operator<< (o, v);
    }
    const std::string s = o.str ();
    vs_check ((bool) o, "the stream stays good");
    reader r{s, 0, !pretty};
    r.value (n, precision);
    r.skip ();
    vs_check (r.pos == s.size (), "nothing follows the value");
}
extern "C" void leaves ()
{
    check (any_leaf ((int) vs_choose ("kind", 0, node::CSTRING)), 0);
    vs_reach ("end");
}
static node list (std::vector<node> kids) { node n; n.kind = node::ARRAY; n.bits = 0; n.kids = kids; return n; }
// names with arbitrary characters, in any order
extern "C" void lists ()
{
    const size_t n = vs_choose ("n", 0, 3);
    std::vector<node> kids;
    for (size_t k = 0; k < n; ++k) kids.push_back (any_leaf (k == 0 ? (int) vs_choose ("kind", 0, node::CSTRING) : k == 1 ? node::U32 : node::BOOL));
    check (list (kids), (int) vs_choose ("indent", 0, 1));
    vs_reach ("end");
}
extern "C" void objects ()
{
    const size_t n = vs_choose ("n", 0, 3);
    node o; o.kind = node::OBJECT; o.bits = 0;
    for (size_t k = 0; k < n; ++k)
    {
        o.kids.push_back (any_leaf (k == 0 ? (int) vs_choose ("kind", 0, node::CSTRING) : k == 1 ? node::INT : node::U64));
        o.keys.push_back (any_text (k == 2 ? 1 : vs_choose ("key", 0, 1)));
    }
    for (size_t a = 0; a < n; ++a) for (size_t b = 0; b < a; ++b) vs_assume (o.keys[a] != o.keys[b]);
    check (o, (int) vs_choose ("indent", 0, 1));
    vs_reach ("end");
}
// nested values of every shape of up to 3 levels
static node shape (int level, size_t &leaf)
{
    const int form = level ? (int) vs_choose ("form", 0, 2) : 0;
    if (!form) { node n; n.kind = leaf & 1 ? node::STRING : node::U16; n.bits = leaf & 1 ? 0 : vs_u16 ("value"); if (leaf & 1) n.text = any_text (1); ++leaf; return n; }
    const size_t n = vs_choose ("n", 0, level > 1 ? 2 : 1 + vs_tier ());
    node o; o.kind = form == 1 ? node::ARRAY : node::OBJECT; o.bits = 0;
    for (size_t k = 0; k < n; ++k) { o.kids.push_back (shape (level - 1, leaf)); o.keys.push_back (k ? "b" : "a"); }
    return o;
}
extern "C" void nested ()
{
    size_t leaf = 0;
    node n = shape (3, leaf);
    check (n, (int) vs_choose ("indent", 0, 1));
    vs_reach ("end");
}
