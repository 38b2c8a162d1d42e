// Stand-in for libprotobuf: the part of the message API the serializer uses.
#pragma once
#include <cstdint>
#include <istream>
#include <ostream>
#include <string>
#include <vector>
namespace vp_pb {
template <class T> struct Repeated : std::vector<T> {
  T &Get(int i) { return (*this)[i]; }
  const T &Get(int i) const { return (*this)[i]; }
  void Add(const T &v) { this->push_back(v); }
  void Reserve(int n) { this->reserve(n); }
  int size() const { return (int)std::vector<T>::size(); }
};
inline void varint(std::string &s, uint64_t v) {
  while (v >= 128) { s.push_back((char)(v | 128)); v >>= 7; }
  s.push_back((char)v);
}
inline bool get(const char *&p, const char *e, uint64_t &v) {
  v = 0;
  for (unsigned i = 0; i < 10; i++) {
    if (p == e) return false;
    unsigned char c = (unsigned char)*p++;
    v |= (uint64_t)(c & 127) << (7 * i);
    if (c < 128) return true;
  }
  return false;
}
inline bool skip(const char *&p, const char *e, uint64_t tag) {
  uint64_t l;
  if ((tag >> 3) == 0 || tag > 0xffffffffu) return false;
  switch (tag & 7) {
  case 0: return get(p, e, l);
  case 1: if (e - p < 8) return false; p += 8; return true;
  case 2: if (!get(p, e, l) || l > (uint64_t)(e - p)) return false; p += l; return true;
  case 5: if (e - p < 4) return false; p += 4; return true;
  case 3:
    while (true) {
      uint64_t t;
      if (!get(p, e, t)) return false;
      if ((t & 7) == 4) return (t >> 3) == (tag >> 3);
      if (!skip(p, e, t)) return false;
    }
  }
  return false;
}
inline uint64_t zig(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
inline int64_t zag(uint64_t v) { return (int64_t)(v >> 1) ^ -(int64_t)(v & 1); }
template <class M> class Message {
  M &self() { return *(M *)this; }
  const M &self() const { return *(const M *)this; }
public:
  bool SerializeToString(std::string *s) const { s->clear(); self().put(*s); return true; }
  bool AppendToString(std::string *s) const { self().put(*s); return true; }
  std::string SerializeAsString() const { std::string s; self().put(s); return s; }
  size_t ByteSizeLong() const { return SerializeAsString().size(); }
  bool SerializeToOstream(std::ostream *o) const {
    std::string s = SerializeAsString();
    if (!s.empty()) o->write(s.data(), (std::streamsize)s.size());
    return o->good();
  }
  bool SerializePartialToOstream(std::ostream *o) const { return SerializeToOstream(o); }
  bool ParseFromString(const std::string &s) { self().Clear(); return self().take(s.data(), s.data() + s.size()); }
  bool ParseFromArray(const void *p, int n) { self().Clear(); return self().take((const char *)p, (const char *)p + n); }
  bool MergeFromString(const std::string &s) { return self().take(s.data(), s.data() + s.size()); }
  bool ParseFromIstream(std::istream *in) {
    self().Clear();
    std::string s;
    char buf[512];
    while (true) {
      in->read(buf, sizeof buf);
      std::streamsize k = in->gcount();
      if (k > 0) s.append(buf, (size_t)k);
      if (k == 0) break;
    }
    return self().take(s.data(), s.data() + s.size()) && in->eof();
  }
  bool ParsePartialFromIstream(std::istream *in) { return ParseFromIstream(in); }
  bool IsInitialized() const { return true; }
  void CopyFrom(const M &m) { self() = m; }
  void Swap(M *m) { std::swap(self(), *m); }
};
} // namespace vp_pb
