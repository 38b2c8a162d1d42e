// std exceptions with messages, call_once and formatted streams ("C" locale),
// for the symbolic build. Part of the trusted base.
#include <cerrno>
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <istream>
#include <mutex>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>

extern "C" {
int __cxa_guard_acquire(long *);
void __cxa_guard_release(long *);
void __cxa_guard_abort(long *);
int pthread_once(pthread_once_t *o, void (*f)()) {
  if (__cxa_guard_acquire((long *)o)) {
    try { f(); } catch (...) { __cxa_guard_abort((long *)o); throw; }
    __cxa_guard_release((long *)o);
  }
  return 0;
}
}

namespace std {
__thread void *__once_callable;
__thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

// ---- exceptions with a message; the message is not kept ----
#define VP_EXC(T, B) \
  T::T(const string &s) : B(s) {} \
  T::T(const char *s) : B(s) {} \
  T::~T() noexcept {}
__cow_string::__cow_string(const char *, size_t) { _M_p = ""; }
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
logic_error::logic_error(const string &) : _M_msg("", 0) {}
logic_error::logic_error(const char *) : _M_msg("", 0) {}
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return "std::logic_error"; }
runtime_error::runtime_error(const string &) : _M_msg("", 0) {}
runtime_error::runtime_error(const char *) : _M_msg("", 0) {}
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return "std::runtime_error"; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(const __cow_string &) noexcept { _M_p = ""; }
VP_EXC(domain_error, logic_error)
VP_EXC(invalid_argument, logic_error)
VP_EXC(length_error, logic_error)
VP_EXC(out_of_range, logic_error)
VP_EXC(range_error, runtime_error)
VP_EXC(overflow_error, runtime_error)
VP_EXC(underflow_error, runtime_error)

// ---- formatted input and output of the common types ----
static ostream &put_num(ostream &os, unsigned long mag, bool neg) {
  char buf[80];
  size_t k = sizeof buf;
  ios_base::fmtflags f = os.flags();
  unsigned base = (f & ios_base::hex) ? 16 : (f & ios_base::oct) ? 8 : 10;
  const char *dig = (f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
  do { buf[--k] = dig[mag % base]; mag /= base; } while (mag);
  if ((f & ios_base::showbase) && base == 16) { buf[--k] = (f & ios_base::uppercase) ? 'X' : 'x'; buf[--k] = '0'; }
  if (neg) buf[--k] = '-';
  else if ((f & ios_base::showpos) && base == 10) buf[--k] = '+';
  return __ostream_insert(os, buf + k, (streamsize)(sizeof buf - k));
}
template <> template <> ostream &ostream::_M_insert(unsigned long v) { return put_num(*this, v, false); }
template <> template <> ostream &ostream::_M_insert(unsigned long long v) { return put_num(*this, v, false); }
template <> template <> ostream &ostream::_M_insert(long v) {
  bool neg = v < 0 && !(flags() & (ios_base::hex | ios_base::oct));
  return put_num(*this, neg ? -(unsigned long)v : (unsigned long)v, neg);
}
template <> template <> ostream &ostream::_M_insert(long long v) { return *this << (long)v; }
template <> template <> ostream &ostream::_M_insert(bool v) {
  if (flags() & ios_base::boolalpha) return *this << (v ? "true" : "false");
  return put_num(*this, v, false);
}
template <> char basic_ios<char>::widen(char c) const { return c; }
template <> char basic_ios<char>::narrow(char c, char) const { return c; }
template <> istream::sentry::sentry(istream &in, bool noskip) : _M_ok(false) {
  ios_base::iostate err = ios_base::goodbit;
  if (in.good()) {
    if (in.tie()) in.tie()->flush();
    if (!noskip && (in.flags() & ios_base::skipws)) {
      int c = in.rdbuf()->sgetc();
      while (c != EOF && isspace(c)) c = in.rdbuf()->snextc();
      if (c == EOF) err |= ios_base::eofbit;
    }
  }
  if (in.good() && err == ios_base::goodbit) _M_ok = true;
  else { err |= ios_base::failbit; in.setstate(err); }
}
template <> istream &operator>>(istream &in, string &s) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, false);
  if (ok) {
    s.erase();
    streamsize w = in.width();
    size_t lim = w > 0 ? (size_t)w : (size_t)-1;
    int c = in.rdbuf()->sgetc();
    while (n < lim && c != EOF && !isspace(c)) { s += (char)c; n++; c = in.rdbuf()->snextc(); }
    if (n < lim && c == EOF) err |= ios_base::eofbit;
    in.width(0);
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
template <> istream &getline(istream &in, string &s, char delim) {
  ios_base::iostate err = ios_base::goodbit;
  size_t n = 0;
  istream::sentry ok(in, true);
  if (ok) {
    s.erase();
    int c = in.rdbuf()->sgetc();
    while (c != EOF && (char)c != delim) { s += (char)c; n++; c = in.rdbuf()->snextc(); }
    if (c == EOF) err |= ios_base::eofbit;
    else { n++; in.rdbuf()->sbumpc(); }
  }
  if (!n) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return in;
}
static bool get_num(istream &in, unsigned long &mag, bool &neg, bool &ovf) {
  istream::sentry ok(in, false);
  mag = 0; neg = ovf = false;
  if (!ok) return false;
  ios_base::iostate err = ios_base::goodbit;
  unsigned base = (in.flags() & ios_base::hex) ? 16 : (in.flags() & ios_base::oct) ? 8 : 10;
  int c = in.rdbuf()->sgetc();
  if (c == '-' || c == '+') { neg = c == '-'; c = in.rdbuf()->snextc(); }
  bool any = false;
  while (c != EOF) {
    unsigned d = isdigit(c) ? c - '0' : isxdigit(c) ? (c | 32) - 'a' + 10 : 99;
    if (d >= base) break;
    any = true;
    if (mag > (~0ul - d) / base) ovf = true;
    mag = mag * base + d;
    c = in.rdbuf()->snextc();
  }
  if (c == EOF) err |= ios_base::eofbit;
  if (!any || ovf) err |= ios_base::failbit;
  if (err) in.setstate(err);
  return true;
}
template <class T> static istream &get_int(istream &in, T &v, T lo, T hi) {
  unsigned long m; bool neg, ovf;
  if (!get_num(in, m, neg, ovf)) return in;
  if (in.fail() && !ovf) { v = 0; return in; }
  if (lo == 0) { // unsigned
    if (ovf || m > (unsigned long)hi) { v = hi; in.setstate(ios_base::failbit); }
    else v = neg ? (T)-m : (T)m;
  } else if (neg) {
    if (ovf || m > (unsigned long)hi + 1) { v = lo; in.setstate(ios_base::failbit); } else v = (T)-m;
  } else if (ovf || m > (unsigned long)hi) { v = hi; in.setstate(ios_base::failbit); } else v = (T)m;
  return in;
}
template <> template <> istream &istream::_M_extract(unsigned short &v) { return get_int<unsigned short>(*this, v, 0, 0xffff); }
template <> template <> istream &istream::_M_extract(unsigned int &v) { return get_int<unsigned int>(*this, v, 0, ~0u); }
template <> template <> istream &istream::_M_extract(unsigned long &v) { return get_int<unsigned long>(*this, v, 0, ~0ul); }
template <> template <> istream &istream::_M_extract(unsigned long long &v) { return get_int<unsigned long long>(*this, v, 0, ~0ull); }
template <> template <> istream &istream::_M_extract(long &v) { return get_int<long>(*this, v, (long)(1ul << 63), (long)(~0ul >> 1)); }
template <> template <> istream &istream::_M_extract(long long &v) { return get_int<long long>(*this, v, (long long)(1ull << 63), (long long)(~0ull >> 1)); }
template <> template <> istream &istream::_M_extract(bool &v) { unsigned long m = 0; istream &r = get_int<unsigned long>(*this, m, 0, 1); v = m; return r; }
template <> istream &istream::operator>>(int &v) { return get_int<int>(*this, v, (int)(1u << 31), (int)(~0u >> 1)); }
template <> istream &istream::operator>>(short &v) { return get_int<short>(*this, v, (short)-32768, (short)32767); }

// ---- the standard streams swallow what they are given and are empty ----
struct vp_nullbuf : streambuf {
  int overflow(int c) override { return c == EOF ? 0 : c; }
  streamsize xsputn(const char *, streamsize n) override { return n; }
};
} // namespace std
using namespace std;
__attribute__((init_priority(101))) static vp_nullbuf vp_null;
namespace std {
#define VP_STREAM(T, N) __attribute__((init_priority(102))) T N(&vp_null);
VP_STREAM(istream, cin)
VP_STREAM(ostream, cout)
VP_STREAM(ostream, cerr)
VP_STREAM(ostream, clog)
const nothrow_t nothrow{};
}
