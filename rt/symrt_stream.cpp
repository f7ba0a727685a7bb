// Streams and the C locale as bitcode for the engine: the templates of libstdc++'s own headers are instantiated here, and
// only what libstdc++ keeps in its shared library (locale set-up, C number formatting) is written anew.
#define _GLIBCXX_CXX_LOCALE_H 1  // replaces bits/c++locale.h
#define _GLIBCXX_C_LOCALE_GNU 1
#define _GLIBCXX_NUM_CATEGORIES 6
#include <clocale>
#include <cstddef>
extern "C" int knpsym_format_double(char *out, unsigned long size, const char *fmt, int has_prec, int prec, double v);
extern "C" int knpsym_parse_double(const char *s, double *v, int is_float);  // 0 bad, 1 fine, 2 too large, 3 too small
namespace std {
typedef __locale_t __c_locale;
inline int __convert_from_v(const __c_locale &, char *out, const int size, const char *fmt, int prec, double v) { return knpsym_format_double(out, size, fmt, 1, prec, v); }
inline int __convert_from_v(const __c_locale &, char *out, const int size, const char *fmt, double v) { return knpsym_format_double(out, size, fmt, 0, 0, v); }
inline int __convert_from_v(const __c_locale &, char *out, const int size, const char *fmt, int prec, long double v) { __builtin_trap(); }
inline int __convert_from_v(const __c_locale &, char *out, const int size, const char *fmt, long double v) { __builtin_trap(); }
}  // namespace std
#include <iomanip>
#include <iostream>
#include <istream>
#include <ostream>
#include <limits>
#include <sstream>
#include <streambuf>
#include <string>
#include <locale>
#include <cstring>

namespace std {
template class basic_streambuf<char>;
template class basic_ios<char>;
template class basic_ostream<char>;
template class basic_istream<char>;
template class basic_iostream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template ostream &endl(ostream &);
template ostream &ends(ostream &);
template ostream &flush(ostream &);
template istream &ws(istream &);
template ostream &operator<<(ostream &, char);
template ostream &operator<<(ostream &, unsigned char);
template ostream &operator<<(ostream &, signed char);
template ostream &operator<<(ostream &, const char *);
template ostream &operator<<(ostream &, const string &);
template istream &operator>>(istream &, char &);
template istream &operator>>(istream &, unsigned char &);
template istream &operator>>(istream &, signed char &);
template istream &getline(istream &, string &);
template ostream &__ostream_insert(ostream &, const char *, streamsize);
template ostream &ostream::_M_insert(long);
template ostream &ostream::_M_insert(unsigned long);
template ostream &ostream::_M_insert(long long);
template ostream &ostream::_M_insert(unsigned long long);
template ostream &ostream::_M_insert(bool);
template ostream &ostream::_M_insert(double);
template ostream &ostream::_M_insert(const void *);
template istream &istream::_M_extract(unsigned short &);
template istream &istream::_M_extract(unsigned int &);
template istream &istream::_M_extract(long &);
template istream &istream::_M_extract(unsigned long &);
template istream &istream::_M_extract(long long &);
template istream &istream::_M_extract(unsigned long long &);
template istream &istream::_M_extract(bool &);
template istream &istream::_M_extract(float &);
template istream &istream::_M_extract(double &);
template class num_put<char>;
template class num_get<char>;
template class numpunct<char>;
template struct __use_cache<__numpunct_cache<char>>;
// explicit specialisations that libstdc++ keeps in istream.cc: reading text up to a separator
template <> streamsize __copy_streambufs_eof(streambuf *in, streambuf *out, bool &ineof) {
  streamsize n = 0;
  ineof = true;
  for (int c = in->sgetc(); !char_traits<char>::eq_int_type(c, char_traits<char>::eof()); c = in->snextc()) {
    if (char_traits<char>::eq_int_type(out->sputc(char_traits<char>::to_char_type(c)), char_traits<char>::eof())) { ineof = false; break; }
    n++;
  }
  return n;
}
template <> istream &istream::getline(char *s, streamsize n, char delim) {
  _M_gcount = 0;
  ios_base::iostate err = ios_base::goodbit;
  sentry ok(*this, true);
  if (ok) {
    int c = rdbuf()->sgetc();
    while (_M_gcount + 1 < n && c != EOF && c != (unsigned char)delim) { *s++ = (char)c; ++_M_gcount; c = rdbuf()->snextc(); }
    if (c == EOF) err |= ios_base::eofbit;
    else if (c == (unsigned char)delim) { ++_M_gcount; rdbuf()->sbumpc(); }
    else err |= ios_base::failbit;
  }
  if (n > 0) *s = 0;
  if (!_M_gcount) err |= ios_base::failbit;
  if (err) setstate(err);
  return *this;
}
template <> istream &istream::ignore(streamsize n) {
  _M_gcount = 0;
  sentry ok(*this, true);
  if (ok && n > 0) {
    int c = rdbuf()->sgetc();
    while (c != EOF && (n == numeric_limits<streamsize>::max() || _M_gcount < n)) { ++_M_gcount; c = rdbuf()->snextc(); }
    if (c == EOF && (n == numeric_limits<streamsize>::max() || _M_gcount < n)) setstate(ios_base::eofbit);
  }
  return *this;
}
template <> istream &istream::ignore(streamsize n, int_type delim) {
  _M_gcount = 0;
  sentry ok(*this, true);
  if (ok && n > 0) {
    int c = rdbuf()->sgetc();
    while ((n == numeric_limits<streamsize>::max() || _M_gcount < n) && c != EOF && c != delim) { ++_M_gcount; c = rdbuf()->snextc(); }
    if (n == numeric_limits<streamsize>::max() || _M_gcount < n) {
      if (c == EOF) setstate(ios_base::eofbit);
      else if (c == delim) { ++_M_gcount; rdbuf()->sbumpc(); }
    }
  }
  return *this;
}

template <> istream &getline(istream &in, string &str, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, true);
  if (ok) {
    str.erase();
    int c = in.rdbuf()->sgetc();
    while (c != EOF && c != (unsigned char)delim) { str += (char)c; n++; c = in.rdbuf()->snextc(); }
    if (c == EOF) err |= ios_base::eofbit;
    else { n++; in.rdbuf()->sbumpc(); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &operator>>(istream &in, string &str) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, false);
  if (ok) {
    str.erase();
    const streamsize w = in.width();
    const size_t limit = w > 0 ? (size_t)w : str.max_size();
    int c = in.rdbuf()->sgetc();
    while (n < limit && c != EOF && !use_facet<ctype<char>>(in.getloc()).is(ctype_base::space, (char)c)) { str += (char)c; n++; c = in.rdbuf()->snextc(); }
    if (n < limit && c == EOF) err |= ios_base::eofbit;
    in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
bool __verify_grouping(const char *, size_t, const string &) noexcept { return true; }
// ---- locale
locale::id ctype<char>::id;
static size_t id_count;
size_t locale::id::_M_id() const noexcept {
  if (!_M_index) _M_index = ++id_count;
  return _M_index - 1;
}
locale::facet::~facet() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
__c_locale locale::facet::_S_clone_c_locale(__c_locale &) noexcept { return nullptr; }
void locale::facet::_S_destroy_c_locale(__c_locale &) {}
alignas(16) static char impl_mem[sizeof(locale::_Impl)];
static const locale::facet *facets[64];
static const locale::facet *caches[64];
alignas(16) static char ctype_mem[sizeof(ctype<char>)], np_mem[sizeof(numpunct<char>)], nput_mem[sizeof(num_put<char>)], nget_mem[sizeof(num_get<char>)];
static ctype_base::mask ctab[256];
const ctype_base::mask *ctype<char>::classic_table() noexcept { return ctab; }
ctype<char>::ctype(const mask *t, bool, size_t refs) : facet(refs), _M_del(false), _M_toupper(nullptr), _M_tolower(nullptr), _M_table(t ? t : ctab), _M_widen_ok(0), _M_narrow_ok(0) {}
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char *ctype<char>::do_toupper(char *b, const char *e) const { for (; b < e; ++b) *b = do_toupper(*b); return e; }
const char *ctype<char>::do_tolower(char *b, const char *e) const { for (; b < e; ++b) *b = do_tolower(*b); return e; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) _M_widen[i] = (char)i; _M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) _M_narrow[i] = (char)i; _M_narrow_ok = 1; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
  _M_data = new __numpunct_cache<char>;
  _M_data->_M_grouping = "";
  _M_data->_M_grouping_size = 0;
  _M_data->_M_use_grouping = false;
  _M_data->_M_decimal_point = '.';
  _M_data->_M_thousands_sep = ',';
  for (size_t i = 0; i < __num_base::_S_oend; ++i) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
  for (size_t i = 0; i < __num_base::_S_iend; ++i) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
  _M_data->_M_truename = "true";
  _M_data->_M_truename_size = 4;
  _M_data->_M_falsename = "false";
  _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() {}
const char *__num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF";
const char *__num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base &io, char *f, char mod) noexcept {
  ios_base::fmtflags flags = io.flags();
  *f++ = '%';
  if (flags & ios_base::showpos) *f++ = '+';
  if (flags & ios_base::showpoint) *f++ = '#';
  ios_base::fmtflags fl = flags & ios_base::floatfield;
  if (fl != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; }
  if (mod) *f++ = mod;
  if (fl == ios_base::fixed) *f++ = 'f';
  else if (fl == ios_base::scientific) *f++ = (flags & ios_base::uppercase) ? 'E' : 'e';
  else if (fl == (ios_base::fixed | ios_base::scientific)) *f++ = (flags & ios_base::uppercase) ? 'A' : 'a';
  else *f++ = (flags & ios_base::uppercase) ? 'G' : 'g';
  *f = 0;
}
template <> void __convert_to_v(const char *s, float &v, ios_base::iostate &err, const __c_locale &) noexcept {
  double d = 0;
  int r = knpsym_parse_double(s, &d, 1);
  v = (float)d;
  if (r != 1) err = ios_base::failbit;
}
template <> void __convert_to_v(const char *s, double &v, ios_base::iostate &err, const __c_locale &) noexcept {
  int r = knpsym_parse_double(s, &v, 0);
  if (r != 1) err = ios_base::failbit;
}
template <> void __convert_to_v(const char *, long double &, ios_base::iostate &, const __c_locale &) noexcept { __builtin_trap(); }
static bool ready;
static void init_locale() {
  if (ready) return;
  ready = true;
  for (int c = 0; c < 128; c++) {
    unsigned m = 0;
    bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', dg = c >= '0' && c <= '9';
    if (up) m |= ctype_base::upper;
    if (lo) m |= ctype_base::lower;
    if (up || lo) m |= ctype_base::alpha;
    if (dg) m |= ctype_base::digit;
    if (dg || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit;
    if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space;
    if (c == ' ' || c == 9) m |= ctype_base::blank;
    if (c < 32 || c == 127) m |= ctype_base::cntrl;
    else m |= ctype_base::print;
    if (c > 32 && c < 127 && !up && !lo && !dg) m |= ctype_base::punct;
    ctab[c] = (ctype_base::mask)m;
  }
  auto *im = reinterpret_cast<locale::_Impl *>(impl_mem);
  im->_M_refcount = 1000;
  im->_M_facets = facets;
  im->_M_facets_size = 64;
  im->_M_caches = caches;
  im->_M_names = nullptr;
  facets[ctype<char>::id._M_id()] = new (ctype_mem) ctype<char>(nullptr, false, 1);
  facets[numpunct<char>::id._M_id()] = new (np_mem) numpunct<char>(1);
  facets[num_put<char>::id._M_id()] = new (nput_mem) num_put<char>(1);
  facets[num_get<char>::id._M_id()] = new (nget_mem) num_get<char>(1);
}
void locale::_Impl::_M_install_cache(const facet *c, size_t i) { _M_caches[i] = c; }
locale::locale() noexcept { init_locale(); _M_impl = reinterpret_cast<_Impl *>(impl_mem); }
locale::locale(const locale &o) noexcept : _M_impl(o._M_impl) {}
locale::~locale() noexcept {}
const locale &locale::operator=(const locale &o) noexcept { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale &o) const noexcept { return _M_impl == o._M_impl; }
const locale &locale::classic() { init_locale(); alignas(locale) static char mem[sizeof(locale)]; return *new (mem) locale; }

// ---- stream base
ios_base::ios_base() noexcept : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() { if (_M_word != _M_local_word) delete[] _M_word; _M_word = 0; }
void ios_base::_M_init() noexcept {
  _M_precision = 6;
  _M_width = 0;
  _M_flags = skipws | dec;
  _M_ios_locale = locale();
}
locale ios_base::imbue(const locale &l) noexcept { locale old = _M_ios_locale; _M_ios_locale = l; return old; }
void ios_base::_M_call_callbacks(event) noexcept {}
void ios_base::_M_dispose_callbacks() noexcept {}
void ios_base::_M_move(ios_base &r) noexcept {
  _M_precision = r._M_precision; _M_width = r._M_width; _M_flags = r._M_flags; _M_exception = r._M_exception; _M_streambuf_state = r._M_streambuf_state;
  _M_ios_locale = r._M_ios_locale;
}
void ios_base::_M_swap(ios_base &r) noexcept {
  std::swap(_M_precision, r._M_precision); std::swap(_M_width, r._M_width); std::swap(_M_flags, r._M_flags);
  std::swap(_M_exception, r._M_exception); std::swap(_M_streambuf_state, r._M_streambuf_state);
}
void __throw_ios_failure(const char *s) { throw std::runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw std::runtime_error(s); }
void ios_base_library_init() {}
ios_base::Init::Init() {}
ios_base::Init::~Init() {}
namespace {
struct null_buffer : streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  streamsize xsputn(const char *, streamsize n) override { return n; }
};
}
static null_buffer nowhere __attribute__((init_priority(101)));
ostream cout __attribute__((init_priority(102)))(&nowhere);
ostream cerr __attribute__((init_priority(102)))(&nowhere);
ostream clog __attribute__((init_priority(102)))(&nowhere);
istream cin __attribute__((init_priority(102)))(&nowhere);
}  // namespace std
