// Force-included before every translation unit that is turned into IR. It makes the standard
// library templates instantiate from the installed headers instead of referring to the shared
// library, and declares the few members whose library definition is replaced in shim.cpp.
#pragma once
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#define VS_SYM 1
// a minimal path class instead of the shared library's
#define _GLIBCXX_FILESYSTEM 1
#define _GLIBCXX_FS_PATH_H 1
#include <string>
#include <ios>
#include <istream>
#include <ostream>
#include <fstream>
#include <sstream>
#include <locale>
#include <random>
#include "vs.h"

namespace std
{
template<> void basic_ios<char>::_M_cache_locale (const locale &);
template<> char basic_ios<char>::widen (char) const;
template<> char basic_ios<char>::narrow (char, char) const;
template<> locale basic_ios<char>::imbue (const locale &);

template<> template<> ostream &ostream::_M_insert (long);
template<> template<> ostream &ostream::_M_insert (unsigned long);
template<> template<> ostream &ostream::_M_insert (long long);
template<> template<> ostream &ostream::_M_insert (unsigned long long);
template<> template<> ostream &ostream::_M_insert (bool);
template<> template<> ostream &ostream::_M_insert (double);
template<> template<> ostream &ostream::_M_insert (long double);
template<> template<> ostream &ostream::_M_insert (const void *);

template<> template<> istream &istream::_M_extract (bool &);
template<> template<> istream &istream::_M_extract (unsigned short &);
template<> template<> istream &istream::_M_extract (unsigned int &);
template<> template<> istream &istream::_M_extract (long &);
template<> template<> istream &istream::_M_extract (unsigned long &);
template<> template<> istream &istream::_M_extract (long long &);
template<> template<> istream &istream::_M_extract (unsigned long long &);
template<> template<> istream &istream::_M_extract (float &);
template<> template<> istream &istream::_M_extract (double &);
template<> template<> istream &istream::_M_extract (long double &);
template<> istream &istream::operator>> (int &);
template<> istream &istream::operator>> (short &);
template<> istream::sentry::sentry (istream &, bool);
template<> istream &operator>> (istream &, string &);
template<> istream &ws (istream &);

template<> basic_filebuf<char>::basic_filebuf ();
template<> basic_filebuf<char>::basic_filebuf (basic_filebuf &&);
template<> void basic_filebuf<char>::swap (basic_filebuf &);
template<> basic_filebuf<char> *basic_filebuf<char>::open (const char *, ios_base::openmode);
template<> basic_filebuf<char> *basic_filebuf<char>::close ();
template<> streamsize basic_filebuf<char>::showmanyc ();
template<> basic_filebuf<char>::int_type basic_filebuf<char>::underflow ();
template<> basic_filebuf<char>::int_type basic_filebuf<char>::pbackfail (int_type);
template<> basic_filebuf<char>::int_type basic_filebuf<char>::overflow (int_type);
template<> basic_filebuf<char>::__streambuf_type *basic_filebuf<char>::setbuf (char *, streamsize);
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff (off_type, ios_base::seekdir, ios_base::openmode);
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos (pos_type, ios_base::openmode);
template<> int basic_filebuf<char>::sync ();
template<> void basic_filebuf<char>::imbue (const locale &);
template<> streamsize basic_filebuf<char>::xsgetn (char *, streamsize);
template<> streamsize basic_filebuf<char>::xsputn (const char *, streamsize);

namespace filesystem
{
class path
{
    string s;
    size_t name () const { size_t k = s.rfind ('/'); return k == string::npos ? 0 : k + 1; }
    size_t dot () const
    {
        size_t n = name ();
        if (s.size () == n || s.compare (n, string::npos, ".") == 0 || s.compare (n, string::npos, "..") == 0) return s.size ();
        size_t k = s.rfind ('.');
        return k == string::npos || k <= n ? s.size () : k;
    }
    public:
    path () {}
    path (const string &t) : s (t) {}
    path (const char *t) : s (t) {}
    path filename () const { return path (s.substr (name ())); }
    path stem () const { return path (s.substr (name (), dot () - name ())); }
    path extension () const { return path (s.substr (dot ())); }
    path parent_path () const { size_t n = name (); return path (s.substr (0, n ? n - 1 : 0)); }
    bool has_filename () const { return name () < s.size (); }
    bool has_extension () const { return dot () < s.size (); }
    path &replace_extension (const path &e = path ()) { s.erase (dot ()); if (!e.s.empty () && e.s[0] != '.') s += '.'; s += e.s; return *this; }
    bool empty () const { return s.empty (); }
    const string &string () const { return s; }
    std::string generic_string () const { return s; }
    const std::string &native () const { return s; }
    const char *c_str () const { return s.c_str (); }
    operator std::string () const { return s; }
    path &operator/= (const path &o) { if (!s.empty () && s.back () != '/') s += '/'; s += o.s; return *this; }
    path &operator+= (const path &o) { s += o.s; return *this; }
    friend path operator/ (path a, const path &b) { a /= b; return a; }
    friend bool operator== (const path &a, const path &b) { return a.s == b.s; }
};
bool exists (const path &p);
}
}
