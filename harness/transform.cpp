#include "apps.h"
#define main transform_main
#include "apps/transform/transform.cpp"
#undef main
static std::string uncompressed_output (const tool_result &t, size_t n, size_t ne)
{
    vs_check (t.rc == 0, "the tool succeeds");
    vs_check (t.out.size () == 18 + 1 + n * (40 + 8 * ne), "output size");
    return t.out;
}
// C10: replace, replace-not, copy-field, set
extern "C" void field_commands ()
{
    const size_t n = vs_tier () ? 3 : 2, ne = 2;
    point_records in = any_points (n, ne);
    std::string bytes = file_bytes ("w", in);
    int cmd = (int) vs_choose ("cmd", 0, 3);
    size_t f = vs_choose ("field", cmd == 3 ? 0 : 3, 10), f2 = f;
    int mode = (int) vs_choose ("mode", 0, 1);
    std::string F = FIELDS[f], opt;
    point_records want = in;
    bool hit_all = true;
    uint64_t bad = 0;
    // value parameters: what the documented integer syntax can express and the field can hold
    uint32_t a = 0, a2 = 0, b = 0;
    if (cmd < 2)
    {
        a = vs_u32 ("A"); a2 = cmd == 1 ? vs_u32 ("A2") : 0; b = vs_u32 ("B");
        vs_assume ((a < 0x80000000u) & (a2 < 0x80000000u) & (b < 0x80000000u) & (b <= field_max (f)));
    }
    if (cmd == 0)
    {
        opt = "--replace=" + F + "," + text (a) + "," + text (b);
        for (auto &p : want) { uint64_t v = field (p, f); put_field (p, f, v == a ? b : v); }
    }
    else if (cmd == 1)
    {
        bool two = vs_choose ("two", 0, 1) != 0;
        opt = "--replace-not=" + F + "," + text (a) + (two ? "," + text (a2) : std::string ()) + "," + text (b);
        for (auto &p : want) { uint64_t v = field (p, f); put_field (p, f, ((v == a) | (two & (v == a2))) ? v : b); }
    }
    else if (cmd == 2)
    {
        f2 = vs_choose ("to", 3, 10);
        opt = "--copy-field=" + F + "," + FIELDS[f2];
        // values that the target can hold
        for (auto &p : want) { vs_assume (field (p, f) <= field_max (f2)); put_field (p, f2, field (p, f)); }
    }
    else
    {
        if (f < 3)
        {
            double v = any_typed ("v");
            opt = "--set=" + F + "," + text (v);
            for (auto &p : want) put_field (p, f, vs_bits (v));
        }
        else
        {
            uint64_t v = vs_sym ("v", f < 5 ? 32 : f < 9 ? 16 : 49);
            opt = "--set=" + F + "," + text (v);
            for (auto &p : want) put_field (p, f, v);
        }
    }
    tool_result t = tool (transform_main, {opt}, bytes, mode);
    std::string out = uncompressed_output (t, n, ne);
    vs_check (diff (out.substr (0, 19), bytes.substr (0, 19)) == 0, "the header is kept");
    spoc_file g = parse (out);
    const point_records &got = g.get_point_records ();
    for (size_t k = 0; k < n; ++k)
    {
        vs_check (vs_ne (field (got[k], f2), field (want[k], f2)) == 0, "the field has the documented value");
        vs_check (diff_except (got[k], in[k], f2) == 0, "no other field changes");
    }
    if (f > 2) observe (got);
    vs_reach ("end");
}
// an extra field that the file does not have, or a field that the command cannot take, is an error
extern "C" void field_errors ()
{
    static const char *const bad[] = {"--replace=e2,1,2", "--replace-not=e2,1,2", "--copy-field=e2,c", "--copy-field=c,e2", "--set=e2,1", "--set=e255,1",
        "--replace=x,1,2", "--replace-not=y,1,2", "--copy-field=z,c", "--copy-field=c,x", "--set=q,1", "--set=e,1", "--set=,1", "--replace=cc,1,2",
        "--replace=c,1", "--replace-not=c,1", "--replace-not=c,1,q,3", "--set=c,q", "--set=c", "--add-x=", "--add-x=q", "--copy-field=c", "--replace=c,q,1", "--quantize-xyz=q", "--rotate-x=", "--scale-z=w", "--nosuch=1"};
    size_t k = vs_choose ("k", 0, sizeof bad / sizeof *bad - 1);
    int mode = (int) vs_choose ("mode", 0, 1);
    std::string bytes = file_bytes ("w", any_points (1, 2));
    tool_result t = tool (transform_main, {bad[k]}, bytes, mode);
    vs_check (t.rc != 0, "an invalid command is reported");
    vs_check (!t.err.empty (), "an invalid command has a message");
    vs_reach ("end");
}
// compressed, damaged or missing input is an error
extern "C" void input_errors ()
{
    point_records in = any_points (1, 1);
    std::string bytes = file_bytes ("w", in);
    int how = (int) vs_choose ("how", 0, 4);
    if (how == 0) bytes[18] = (char) (vs_u8 ("flag") | 1); // compressed flag (after 18 - 1 + |w| bytes)
    else if (how == 1) { uint8_t s = vs_u8 ("sig"); vs_assume (s != 'S'); bytes[0] = (char) s; }
    else if (how == 2) { uint8_t v = vs_u8 ("ver"); vs_assume (v != spoc::MINOR_VERSION); bytes[5] = (char) v; }
    else if (how == 3) bytes.resize (vs_choose ("cut", 0, bytes.size () - 1));
    else bytes += std::string ();
    int mode = (int) vs_choose ("mode", 0, 1);
    tool_result t = tool (transform_main, {"--add-x=1"}, bytes, mode);
    vs_check ((t.rc == 0) == (how == 4), "damaged input is reported, good input is not");
    vs_reach (how == 4 ? "good" : "bad");
}
// commands are applied in the order given
extern "C" void command_order ()
{
    point_records in = any_points (1, 1);
    std::string bytes = file_bytes ("w", in);
    static const char *const names[] = {"--set=c,5", "--replace=c,5,6", "--replace-not=c,6,7", "--copy-field=c,e0", "--copy-field=e0,c", "--copy-field=c,p"};
    size_t len = vs_tier () ? 3 : 2;
    std::vector<std::string> args;
    point_record w = in[0];
    vs_assume ((w.extra[0] >> 32) == 0);
    for (size_t k = 0; k < len; ++k)
    {
        size_t c = vs_choose ("cmd", 0, 5);
        args.push_back (names[c]);
        switch (c)
        {
            case 0: w.c = 5; break;
            case 1: w.c = w.c == 5 ? 6 : w.c; break;
            case 2: w.c = w.c == 6 ? w.c : 7; break;
            case 3: w.extra[0] = w.c; break;
            case 4: w.c = (uint32_t) w.extra[0]; break;
            case 5: w.p = w.c; break;
        }
    }
    tool_result t = tool (transform_main, args, bytes, 0);
    spoc_file g = parse (uncompressed_output (t, 1, 1));
    vs_check (diff (g.get_point_record (0), w) == 0, "commands are applied in order");
    observe (g.get_point_records ());
    vs_reach ("end");
}
// C11: coordinate commands
static double apply_axis (const char *) { return 0; }
extern "C" void coordinate_commands ()
{
    const size_t n = 2, ne = 1;
    point_records in = any_points (n, ne), want = in;
    std::string bytes = file_bytes ("w", in);
    double v = any_typed ("v");
    int cmd = (int) vs_choose ("cmd", 0, 9), mode = (int) vs_choose ("mode", 0, 1);
    static const char *const names[] = {"add-x", "add-y", "add-z", "scale-x", "scale-y", "scale-z", "rotate-x", "rotate-y", "rotate-z", "quantize-xyz"};
    if (cmd == 9) vs_assume (v != 0);
    for (auto &p : want)
    {
        const double r = v * M_PI / 180.0;
        const point_record q = p;
        switch (cmd)
        {
            case 0: p.x = q.x + v; break;
            case 1: p.y = q.y + v; break;
            case 2: p.z = q.z + v; break;
            case 3: p.x = q.x * v; break;
            case 4: p.y = q.y * v; break;
            case 5: p.z = q.z * v; break;
            case 6: p.y = q.y * cos (r) - q.z * sin (r); p.z = q.y * sin (r) + q.z * cos (r); break;
            case 7: p.x = q.x * cos (r) - q.z * sin (r); p.z = q.x * sin (r) + q.z * cos (r); break;
            case 8: p.x = q.x * cos (r) - q.y * sin (r); p.y = q.x * sin (r) + q.y * cos (r); break;
            case 9: p.x = std::trunc (q.x / v) * v; p.y = std::trunc (q.y / v) * v; p.z = std::trunc (q.z / v) * v; break;
        }
    }
    // values that are not NaN afterwards have exactly the documented value
    tool_result t = tool (transform_main, {std::string ("--") + names[cmd] + "=" + text (v)}, bytes, mode);
    std::string out = uncompressed_output (t, n, ne);
    vs_check (diff (out.substr (0, 19), bytes.substr (0, 19)) == 0, "the header is kept");
    spoc_file g = parse (out);
    for (size_t k = 0; k < n; ++k)
    {
        const point_record &p = g.get_point_records ()[k];
        for (size_t f = 0; f < 3; ++f)
        {
            double a = vs_unbits (field (p, f)), b = vs_unbits (field (want[k], f));
            vs_check ((b != b) | (a == b), "the coordinate has the documented value");
        }
        point_record q = p;
        q.x = in[k].x; q.y = in[k].y; q.z = in[k].z;
        vs_check (diff (q, in[k]) == 0, "only coordinates change");
        bool tx = cmd == 0 || cmd == 3 || cmd == 7 || cmd == 8 || cmd == 9, ty = cmd == 1 || cmd == 4 || cmd == 6 || cmd == 8 || cmd == 9, tz = cmd == 2 || cmd == 5 || cmd == 6 || cmd == 7 || cmd == 9;
        uint64_t d = 0;
        if (!tx) d |= vs_ne (vs_bits (p.x), vs_bits (in[k].x));
        if (!ty) d |= vs_ne (vs_bits (p.y), vs_bits (in[k].y));
        if (!tz) d |= vs_ne (vs_bits (p.z), vs_bits (in[k].z));
        vs_check (d == 0, "only the named axes change");
    }
    vs_reach ("end");
}
// C11: the library's versions agree with the tool's
extern "C" void library_coordinates ();
#include "spoc/affine.h"
extern "C" void library_coordinates ()
{
    const size_t n = vs_choose ("n", 0, 3);
    point_records in = any_points (n, 1), p = in, want = in;
    double v = vs_double ("v");
    int cmd = (int) vs_choose ("cmd", 0, 10);
    if (cmd == 9) vs_assume (v != 0);
    const double r = v * M_PI / 180.0;
    point_record off; off.x = v; off.y = vs_double ("w"); off.z = 3;
    for (auto &q : want)
    {
        const double x = q.x, y = q.y, z = q.z;
        switch (cmd)
        {
            case 0: q.x = x + v; break;
            case 1: q.y = y + v; break;
            case 2: q.z = z + v; break;
            case 3: q.x = x * v; break;
            case 4: q.y = y * v; break;
            case 5: q.z = z * v; break;
            case 6: q.y = y * cos (r) - z * sin (r); q.z = y * sin (r) + z * cos (r); break;
            case 7: q.x = x * cos (r) - z * sin (r); q.z = x * sin (r) + z * cos (r); break;
            case 8: q.x = x * cos (r) - y * sin (r); q.y = x * sin (r) + y * cos (r); break;
            case 9: q.x = std::trunc (x / v) * v; q.y = std::trunc (y / v) * v; q.z = std::trunc (z / v) * v; break;
            case 10: q.x = x + off.x; q.y = y + off.y; q.z = z + off.z; break;
        }
    }
    switch (cmd)
    {
        case 0: spoc::affine::add_x (p, v); break;
        case 1: spoc::affine::add_y (p, v); break;
        case 2: spoc::affine::add_z (p, v); break;
        case 3: spoc::affine::scale_x (p, v); break;
        case 4: spoc::affine::scale_y (p, v); break;
        case 5: spoc::affine::scale_z (p, v); break;
        case 6: spoc::affine::rotate_x (p, v); break;
        case 7: spoc::affine::rotate_y (p, v); break;
        case 8: spoc::affine::rotate_z (p, v); break;
        case 9: spoc::utils::quantize (p, v); break;
        case 10: spoc::affine::add (p, off); break;
    }
    vs_check (p.size () == n, "number of points");
    for (size_t k = 0; k < n; ++k)
    {
        for (size_t f = 0; f < 3; ++f)
        {
            double a = vs_unbits (field (p[k], f)), b = vs_unbits (field (want[k], f));
            vs_check ((b != b) | (a == b), "the coordinate has the documented value");
        }
        point_record q = p[k];
        q.x = in[k].x; q.y = in[k].y; q.z = in[k].z;
        vs_check (diff (q, in[k]) == 0, "only coordinates change");
    }
    vs_reach ("end");
}
// C11: quantized values are exact multiples and are not moved away from zero
extern "C" void quantize_meaning ()
{
    point_records in = any_points (1, 0);
    int e = (int) vs_choose ("e", 0, 3);
    static const double prec[] = {1.0, 0.5, 2.0, 1024.0};
    double v = prec[e];
    vs_assume ((in[0].x - in[0].x == 0) & (in[0].x < 1e15) & (in[0].x > -1e15));
    tool_result t = tool (transform_main, {"--quantize-xyz=" + text (v)}, file_bytes ("w", in), 0);
    spoc_file g = parse (uncompressed_output (t, 1, 0));
    double q = g.get_point_record (0).x, x = in[0].x;
    vs_check (q / v == std::trunc (q / v), "a quantized value is a multiple of the precision");
    vs_check (std::fabs (q) <= std::fabs (x), "quantizing never moves a value away from zero");
    vs_check (std::fabs (x) - std::fabs (q) < v, "quantizing moves a value by less than the precision");
    vs_reach ("end");
}
// noise: only the named axes change, by no more than the magnitude; the same seed gives the same output
extern "C" void noise ()
{
    const size_t n = 2;
    point_records in = any_points (n, 1);
    // finite noise added to zero shows the draw
    bool zero = vs_choose ("zero", 0, 1) != 0;
    if (zero) for (auto &p : in) p.x = p.y = p.z = 0;
    std::string bytes = file_bytes ("w", in);
    int kind = (int) vs_choose ("kind", 0, 1), axis = (int) vs_choose ("axis", 0, 3);
    static const char *const ax[] = {"", "-x", "-y", "-z"};
    static const char *const seeds[] = {"", "0", "1", "12345"};
    size_t seed = vs_choose ("seed", 0, vs_tier () ? 3 : 2), mag = vs_choose ("mag", 0, 1);
    std::vector<std::string> args;
    if (seed) args.push_back (std::string ("--random-seed=") + seeds[seed]);
    args.push_back (std::string (kind ? "--gaussian-noise" : "--uniform-noise") + ax[axis] + "=" + (mag ? "0.25" : "0"));
    tool_result t = tool (transform_main, args, bytes, 0);
    std::string out = uncompressed_output (t, n, 1);
    tool_result u = tool (transform_main, args, bytes, 1);
    vs_check (u.rc == 0 && diff (u.out, out) == 0, "the same seed gives the same output");
    spoc_file g = parse (out);
    bool moved = false;
    for (size_t k = 0; k < n; ++k)
    {
        const point_record &p = g.get_point_records ()[k];
        point_record q = p;
        if (mag && (axis == 0 || axis == 1)) q.x = in[k].x;
        if (mag && (axis == 0 || axis == 2)) q.y = in[k].y;
        if (mag && (axis == 0 || axis == 3)) q.z = in[k].z;
        vs_check (diff (q, in[k]) == 0, "only the named axes change");
        if (zero && kind == 0) vs_check (std::fabs (p.x) <= 0.25 && std::fabs (p.y) <= 0.25 && std::fabs (p.z) <= 0.25, "uniform noise stays within its magnitude");
        if (zero) moved |= p.x != 0 || p.y != 0 || p.z != 0;
    }
    if (zero) vs_check (moved == (mag != 0), "noise of a non-zero magnitude moves points");
    vs_reach ("end");
}
// more points than a 16-bit number can count
extern "C" void many_fields ()
{
    const point_records in = many_points (0);
    const std::string bytes = file_bytes ("w", in);
    const int cmd = (int) vs_choose ("cmd", 0, 2);
    tool_result t = tool (transform_main, {cmd == 0 ? "--replace=c,3,77" : cmd == 1 ? "--set=r,9" : "--copy-field=c,p"}, bytes, 1);
    std::string out = uncompressed_output (t, in.size (), 0);
    spoc_file g = parse (out);
    const point_records &got = g.get_point_records ();
    vs_check (got.size () == in.size (), "as many points");
    uint64_t bad = 0;
    for (size_t k = 0; k < in.size (); ++k)
    {
        point_record w = in[k];
        if (cmd == 0) w.c = w.c == 3 ? 77 : w.c; else if (cmd == 1) w.r = 9; else w.p = w.c;
        bad |= diff (got[k], w);
    }
    vs_check (bad == 0, "the field of every point has the documented value, no other field changes");
    vs_reach ("end");
}
extern "C" void many_coordinates ()
{
    const point_records in = many_points (0);
    const std::string bytes = file_bytes ("w", in);
    const int cmd = (int) vs_choose ("cmd", 0, 1);
    tool_result t = tool (transform_main, {cmd ? "--add-x=0.5" : "--scale-z=2"}, bytes, 1);
    std::string out = uncompressed_output (t, in.size (), 0);
    spoc_file g = parse (out);
    const point_records &got = g.get_point_records ();
    vs_check (got.size () == in.size (), "as many points");
    uint64_t bad = 0;
    for (size_t k = 0; k < in.size (); ++k)
    {
        point_record w = in[k];
        // undefined values stay undefined
        vs_assume ((w.x == w.x) & (w.z == w.z));
        if (cmd) w.x += 0.5; else w.z *= 2;
        bad |= diff (got[k], w);
    }
    vs_check (bad == 0, "the coordinate of every point has the documented value, no other field changes");
    vs_reach ("end");
}
