// forced first include for the symbolic build: make libstdc++'s string and
// stream templates instantiate in the bitcode instead of the shared library
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <ostream>
#include <string>
// bodies in runtime.cpp and libc.cpp
namespace std {
template <> void basic_ios<char>::_M_cache_locale(const locale &);
template <> char basic_ios<char>::widen(char) const;
template <> char basic_ios<char>::narrow(char, char) const;
template <> template <> ostream &ostream::_M_insert(unsigned long);
template <> template <> ostream &ostream::_M_insert(unsigned long long);
template <> template <> ostream &ostream::_M_insert(long);
template <> template <> ostream &ostream::_M_insert(long long);
template <> template <> ostream &ostream::_M_insert(bool);
template <> istream::sentry::sentry(istream &, bool);
template <> istream &operator>>(istream &, string &);
template <> istream &getline(istream &, string &, char);
template <> template <> istream &istream::_M_extract(unsigned short &);
template <> template <> istream &istream::_M_extract(unsigned int &);
template <> template <> istream &istream::_M_extract(unsigned long &);
template <> template <> istream &istream::_M_extract(unsigned long long &);
template <> template <> istream &istream::_M_extract(long &);
template <> template <> istream &istream::_M_extract(long long &);
template <> template <> istream &istream::_M_extract(bool &);
template <> istream &istream::operator>>(int &);
template <> istream &istream::operator>>(short &);
}
