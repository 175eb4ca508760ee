#include <filesystem>
#include <csignal>
#include <sys/resource.h>

// Native implementation of the harness interface: replays one assignment of the symbolic inputs
// against the real code, the real standard library and (unless the harness says otherwise) the real zlib.
#include "rt.h"
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>
#include <exception>
#include <fstream>
#include <getopt.h>
#include <new>
#include <unistd.h>
#include <sys/stat.h>
#include <dirent.h>
static struct Val { std::string name; unsigned long long v; } *vals;
static size_t nvals, pos;
static bool failed;
static void diverge (const char *m) { printf ("VS_DIVERGE %s\n", m); fflush (stdout); _exit (77); }
extern "C" {
uint64_t vs_sym (const char *name, int bits)
{
    if (pos >= nvals) diverge ("more inputs than recorded");
    if (vals[pos].name != name) diverge ((std::string ("input ") + name + " but recorded " + vals[pos].name).c_str ());
    uint64_t v = vals[pos++].v;
    return bits < 64 ? v & ((1ull << bits) - 1) : v;
}
double vs_double (const char *name) { return vs_unbits (vs_sym (name, 64)); }
uint64_t vs_choose (const char *name, uint64_t lo, uint64_t hi) { uint64_t v = vs_sym (name, 64); if (v < lo || v > hi) diverge ("choice out of range"); return v; }
void vs_assume (bool c) { if (!c) diverge ("assumption does not hold"); }
void vs_check (bool c, const char *msg) { if (!c) { printf ("VS_FAIL %s\n", msg); fflush (stdout); failed = true; _exit (42); } }
uint64_t vs_ne (uint64_t a, uint64_t b) { return a != b; }
void vs_fail (const char *msg) { vs_check (false, msg); }
void vs_observe (const char *tag, uint64_t v) { printf ("VS_OBS %s %llx\n", tag, (unsigned long long) v); }
void vs_reach (const char *tag) { printf ("VS_REACH %s\n", tag); }
bool vs_is_symbolic (uint64_t) { return false; }
uint64_t vs_concretize (uint64_t v) { return v; }
int vs_case () { const char *e = getenv ("VS_CASE"); return e ? atoi (e) : 0; }
int vs_tier () { const char *e = getenv ("VS_TIERN"); return e ? atoi (e) : 0; }
int vs_native () { return 1; }
void vs_race (int) {}
void vs_threads (int) {}
void vs_must_terminate (uint64_t) { alarm (20); }
void vs_terminated () { alarm (0); }
void vs_stop () { printf ("VS_STOP\n"); fflush (stdout); _exit (0); }
void vs_print (const char *tag, uint64_t v) { fprintf (stderr, "%s %llx\n", tag, (unsigned long long) v); }
}
static uint64_t alloc_limit = 1ull << 40;
void vs_alloc_limit (uint64_t n) { alloc_limit = n; }
static void *get (size_t n) { if (n > alloc_limit) throw std::bad_alloc (); void *p = malloc (n ? n : 1); if (!p) throw std::bad_alloc (); return p; }
void *operator new (size_t n) { return get (n); }
void *operator new[] (size_t n) { return get (n); }
void operator delete (void *p) noexcept { free (p); }
void operator delete[] (void *p) noexcept { free (p); }
void operator delete (void *p, size_t) noexcept { free (p); }
void operator delete[] (void *p, size_t) noexcept { free (p); }
void vs_file_put (const std::string &n, const std::string &d) { auto dir = std::filesystem::path (n).parent_path (); if (!dir.empty ()) std::filesystem::create_directories (dir); std::ofstream o (n, std::ios::binary); o.write (d.data (), d.size ()); }
bool vs_file_get (const std::string &n, std::string &d)
{
    std::ifstream i (n, std::ios::binary); if (!i) return false;
    std::stringstream s; s << i.rdbuf (); d = s.str (); return true;
}
void vs_file_remove (const std::string &n) { unlink (n.c_str ()); }
std::string vs_file_name (size_t k)
{
    for (auto &e : std::filesystem::recursive_directory_iterator (".")) if (e.is_regular_file () && e.path ().filename ().string ()[0] != '.' && k-- == 0) return e.path ().string ().substr (2);
    return "";
}
size_t vs_file_count ()
{
    size_t n = 0;
    for (auto &e : std::filesystem::recursive_directory_iterator (".")) if (e.is_regular_file () && e.path ().filename ().string ()[0] != '.') ++n;
    return n;
}
// the kernel refuses to let a file grow beyond the limit
static uint64_t disk_limit = ~0ull;
void vs_disk_limit (uint64_t n)
{
    disk_limit = n;
    signal (SIGXFSZ, SIG_IGN);
    struct rlimit r; getrlimit (RLIMIT_FSIZE, &r);
    r.rlim_cur = n == ~0ull ? r.rlim_max : n;
    setrlimit (RLIMIT_FSIZE, &r);
}
namespace
{
struct LimitedOut : std::streambuf
{
    std::string data, pending;
    bool flush_out ()
    {
        uint64_t room = disk_limit > data.size () ? disk_limit - data.size () : 0;
        bool ok = pending.size () <= room;
        data.append (pending.data (), ok ? pending.size () : room);
        pending.clear ();
        return ok;
    }
    bool put (const char *p, size_t n) { pending.append (p, n); return pending.size () < 4096 || flush_out (); }
    std::streamsize xsputn (const char *p, std::streamsize n) override { return put (p, n) ? n : 0; }
    int_type overflow (int_type c) override { if (c == EOF) return 0; char ch = (char) c; return put (&ch, 1) ? c : EOF; }
    int sync () override { return flush_out () ? 0 : -1; }
};
}
static int rng_sym = 1;
void vs_rng_mode (int m) { rng_sym = m; }
uint64_t vs_draw (uint64_t lo, uint64_t hi)
{
    if (!rng_sym) return lo;
    uint64_t v = vs_sym ("draw", 64);
    vs_assume ((v >= lo) & (v <= hi));
    return v;
}
vs_run_result vs_run (vs_main_fn f, const std::vector<std::string> &args, const std::string &in)
{
    std::stringbuf i (in, std::ios_base::in), o (std::ios_base::out), e (std::ios_base::out);
    auto *bi = std::cin.rdbuf (&i); LimitedOut lo; auto *bo = std::cout.rdbuf (disk_limit == ~0ull ? (std::streambuf *) &o : &lo); auto *be = std::cerr.rdbuf (&e); auto *bl = std::clog.rdbuf (&e);
    std::cin.clear (); std::cout.clear (); std::cerr.clear (); std::clog.clear ();
    std::cout.precision (6);
    std::vector<std::string> a (args);
    std::vector<char *> argv;
    for (auto &s : a) argv.push_back (&s[0]);
    argv.push_back (nullptr);
    optind = 0; opterr = 0;
    vs_run_result r;
    r.rc = f ((int) a.size (), argv.data ());
    if (disk_limit != ~0ull) lo.pubsync ();
    r.out = disk_limit == ~0ull ? o.str () : lo.data; r.err = e.str ();
    std::cin.rdbuf (bi); std::cout.rdbuf (bo); std::cerr.rdbuf (be); std::clog.rdbuf (bl);
    return r;
}
void vs_buckets (bool) {}
bool vs_get_int (const std::string &s, size_t &p, uint64_t &v, uint64_t *minus)
{
    const char *b = s.c_str () + p; char *e; errno = 0;
    if (minus) { const char *q = b; while (isspace ((unsigned char) *q)) ++q; *minus = *q == '-'; }
    v = strtoull (b, &e, 10); p = e - s.c_str (); return e != b && !errno;
}
bool vs_get_double (const std::string &s, size_t &p, double &v)
{
    const char *b = s.c_str () + p; char *e;
    v = strtod (b, &e); p = e - s.c_str (); return e != b;
}
int main (int argc, char **argv)
{
    if (argc < 3) return 3;
    std::ifstream f (argv[2]);
    std::string name, w, hex;
    std::vector<Val> tmp;
    while (f >> name >> w >> hex) tmp.push_back ({name, strtoull (hex.c_str (), nullptr, 16)});
    vals = tmp.data (); nvals = tmp.size ();
    auto fn = (void (*) ()) dlsym (RTLD_DEFAULT, argv[1]);
    if (!fn) { fprintf (stderr, "no entry %s\n", argv[1]); return 3; }
    try { fn (); }
    catch (const std::exception &e) { printf ("VS_FAIL uncaught exception %s\n", e.what ()); fflush (stdout); _exit (42); }
    catch (...) { printf ("VS_FAIL uncaught exception\n"); fflush (stdout); _exit (42); }
    printf ("VS_END\n");
    fflush (stdout);
    _exit (0);
}
