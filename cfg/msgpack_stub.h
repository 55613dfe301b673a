// A stand-in for the part of msgpack-c 0.5.9 that src/network/mprpc uses (the library is not
// installed here). It follows the documented wire format and the behaviour of that version:
// execute() throws unpack_error on bytes that are no MessagePack and on nesting deeper than 32,
// conversions throw type_error, objects live in the zone the unpacker releases. Everything in a
// zone is a separate allocation, so a use after the zone has gone is seen by AddressSanitizer.
#ifndef VERIF_MSGPACK_STUB_H
#define VERIF_MSGPACK_STUB_H
#include <stdint.h>
#include <arpa/inet.h> // as the real one does
#include <string.h>
#include <stdexcept>
#include <typeinfo>
#include <limits>
#include <ostream>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <utility>
namespace msgpack {
class type_error : public std::bad_cast {};
class unpack_error : public std::runtime_error { public: unpack_error(const std::string &m) : std::runtime_error(m) {} };
namespace type { enum object_type { NIL = 0, BOOLEAN = 1, POSITIVE_INTEGER = 2, NEGATIVE_INTEGER = 3, DOUBLE = 4, RAW = 5, ARRAY = 6, MAP = 7 }; struct nil {}; }
struct object; struct object_kv;
struct object_array { uint32_t size; object *ptr; }; struct object_map { uint32_t size; object_kv *ptr; }; struct object_raw { uint32_t size; const char *ptr; };
struct object { type::object_type type; union { bool boolean; uint64_t u64; int64_t i64; double dec; object_array array; object_map map; object_raw raw; } via;
  object() : type(type::NIL) { memset(&via, 0, sizeof via); }
  bool is_nil() const { return type == type::NIL; }
  template <class T> void convert(T *v) const; template <class T> T as() const { T v; convert(&v); return v; } };
struct object_kv { object key, val; };
class zone { public: zone() {} ~zone() { for (size_t i = 0; i < chunks.size(); i++) delete[] chunks[i]; } char *take(size_t n) { char *p = new char[n ? n : 1]; chunks.push_back(p); return p; }
  private: std::vector<char *> chunks; zone(const zone &); void operator=(const zone &); };
class sbuffer { public: void write(const char *p, size_t n) { s.append(p, n); } const char *data() const { return s.data(); } size_t size() const { return s.size(); } private: std::string s; };

template <class S> class packer { public: packer(S &s) : s(s) {} packer(S *s) : s(*s) {}
  template <class T> packer &pack(const T &v);
  void byte(int b) { char c = (char)b; s.write(&c, 1); }
  void be(uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) byte((int)(v >> (8 * i)) & 255); }
  packer &pack_u64(uint64_t v) { if (v < 128) byte((int)v); else if (v < 256) { byte(0xcc); be(v, 1); } else if (v < 65536) { byte(0xcd); be(v, 2); } else if (v < 4294967296ull) { byte(0xce); be(v, 4); } else { byte(0xcf); be(v, 8); } return *this; }
  packer &pack_i64(int64_t v) { if (v >= 0) return pack_u64(v); if (v >= -32) byte((int)v & 255); else if (v >= -128) { byte(0xd0); be(v, 1); } else if (v >= -32768) { byte(0xd1); be(v, 2); } else if (v >= -2147483648ll) { byte(0xd2); be(v, 4); } else { byte(0xd3); be(v, 8); } return *this; }
  packer &pack_nil() { byte(0xc0); return *this; } packer &pack_true() { byte(0xc3); return *this; } packer &pack_false() { byte(0xc2); return *this; }
  packer &pack_double(double d) { uint64_t u; memcpy(&u, &d, 8); byte(0xcb); be(u, 8); return *this; } packer &pack_float(float d) { uint32_t u; memcpy(&u, &d, 4); byte(0xca); be(u, 4); return *this; }
  packer &pack_array(unsigned n) { if (n < 16) byte(0x90 | n); else if (n < 65536) { byte(0xdc); be(n, 2); } else { byte(0xdd); be(n, 4); } return *this; }
  packer &pack_map(unsigned n) { if (n < 16) byte(0x80 | n); else if (n < 65536) { byte(0xde); be(n, 2); } else { byte(0xdf); be(n, 4); } return *this; }
  packer &pack_raw(size_t n) { if (n < 32) byte(0xa0 | (int)n); else if (n < 65536) { byte(0xda); be(n, 2); } else { byte(0xdb); be(n, 4); } return *this; } packer &pack_raw_body(const char *p, size_t n) { s.write(p, n); return *this; }
  private: S &s; };

template <class T> struct adaptor { template <class P> static void put(P &p, const T &v) { v.msgpack_pack(p); } static void get(const object &o, T &v) { v.msgpack_unpack(o); } };
#define STUB_INT(T) template <> struct adaptor<T> { template <class P> static void put(P &p, T v) { if (std::numeric_limits<T>::is_signed) p.pack_i64((int64_t)v); else p.pack_u64((uint64_t)v); } \
  static void get(const object &o, T &v) { if (o.type == type::POSITIVE_INTEGER) { if (o.via.u64 > (uint64_t)std::numeric_limits<T>::max()) throw type_error(); v = (T)o.via.u64; } else if (o.type == type::NEGATIVE_INTEGER && std::numeric_limits<T>::is_signed) { if (o.via.i64 < (int64_t)std::numeric_limits<T>::min()) throw type_error(); v = (T)o.via.i64; } else throw type_error(); } };
STUB_INT(signed char) STUB_INT(short) STUB_INT(int) STUB_INT(long) STUB_INT(long long) STUB_INT(unsigned char) STUB_INT(unsigned short) STUB_INT(unsigned int) STUB_INT(unsigned long) STUB_INT(unsigned long long)
#undef STUB_INT
template <> struct adaptor<bool> { template <class P> static void put(P &p, bool v) { if (v) p.pack_true(); else p.pack_false(); } static void get(const object &o, bool &v) { if (o.type != type::BOOLEAN) throw type_error(); v = o.via.boolean; } };
template <> struct adaptor<double> { template <class P> static void put(P &p, double v) { p.pack_double(v); } static void get(const object &o, double &v) { if (o.type != type::DOUBLE) throw type_error(); v = o.via.dec; } };
template <> struct adaptor<float> { template <class P> static void put(P &p, float v) { p.pack_float(v); } static void get(const object &o, float &v) { if (o.type != type::DOUBLE) throw type_error(); v = (float)o.via.dec; } };
template <> struct adaptor<std::string> { template <class P> static void put(P &p, const std::string &v) { p.pack_raw(v.size()); p.pack_raw_body(v.data(), v.size()); } static void get(const object &o, std::string &v) { if (o.type != type::RAW) throw type_error(); v.assign(o.via.raw.ptr, o.via.raw.size); } };
template <> struct adaptor<type::nil> { template <class P> static void put(P &p, const type::nil &) { p.pack_nil(); } static void get(const object &o, type::nil &) { if (o.type != type::NIL) throw type_error(); } };
template <> struct adaptor<object> { template <class P> static void put(P &p, const object &v) { switch (v.type) { case type::NIL: p.pack_nil(); break; case type::BOOLEAN: if (v.via.boolean) p.pack_true(); else p.pack_false(); break; case type::POSITIVE_INTEGER: p.pack_u64(v.via.u64); break; case type::NEGATIVE_INTEGER: p.pack_i64(v.via.i64); break; case type::DOUBLE: p.pack_double(v.via.dec); break; case type::RAW: p.pack_raw(v.via.raw.size); p.pack_raw_body(v.via.raw.ptr, v.via.raw.size); break; case type::ARRAY: p.pack_array(v.via.array.size); for (uint32_t i = 0; i < v.via.array.size; i++) p.pack(v.via.array.ptr[i]); break; case type::MAP: p.pack_map(v.via.map.size); for (uint32_t i = 0; i < v.via.map.size; i++) { p.pack(v.via.map.ptr[i].key); p.pack(v.via.map.ptr[i].val); } } } static void get(const object &o, object &v) { v = o; } };
template <class T> struct adaptor<std::vector<T> > { template <class P> static void put(P &p, const std::vector<T> &v) { p.pack_array(v.size()); for (size_t i = 0; i < v.size(); i++) p.pack((T)v[i]); } static void get(const object &o, std::vector<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.resize(o.via.array.size); for (uint32_t i = 0; i < o.via.array.size; i++) { T t; o.via.array.ptr[i].convert(&t); v[i] = t; } } };
template <class T> struct adaptor<std::set<T> > { template <class P> static void put(P &p, const std::set<T> &v) { p.pack_array(v.size()); for (typename std::set<T>::const_iterator i = v.begin(); i != v.end(); ++i) p.pack(*i); } static void get(const object &o, std::set<T> &v) { if (o.type != type::ARRAY) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.array.size; i++) { T t; o.via.array.ptr[i].convert(&t); v.insert(t); } } };
template <class K, class T> struct adaptor<std::map<K, T> > { template <class P> static void put(P &p, const std::map<K, T> &v) { p.pack_map(v.size()); for (typename std::map<K, T>::const_iterator i = v.begin(); i != v.end(); ++i) { p.pack(i->first); p.pack(i->second); } } static void get(const object &o, std::map<K, T> &v) { if (o.type != type::MAP) throw type_error(); v.clear(); for (uint32_t i = 0; i < o.via.map.size; i++) { K k; o.via.map.ptr[i].key.convert(&k); o.via.map.ptr[i].val.convert(&v[k]); } } };
template <class A, class B> struct adaptor<std::pair<A, B> > { template <class P> static void put(P &p, const std::pair<A, B> &v) { p.pack_array(2); p.pack(v.first); p.pack(v.second); } static void get(const object &o, std::pair<A, B> &v) { if (o.type != type::ARRAY || o.via.array.size != 2) throw type_error(); o.via.array.ptr[0].convert(&v.first); o.via.array.ptr[1].convert(&v.second); } };
namespace type {
template <class A> struct hold { typedef A t; }; template <class A> struct hold<A &> { typedef A &t; };
template <class A0, class A1, class A2, class A3> struct tuple { tuple() {} tuple(typename hold<A0>::t b0, typename hold<A1>::t b1, typename hold<A2>::t b2, typename hold<A3>::t b3) : a0(b0), a1(b1), a2(b2), a3(b3) {} A0 a0; A1 a1; A2 a2; A3 a3;
  template <class P> void msgpack_pack(P &p) const { p.pack_array(4); p.pack(a0); p.pack(a1); p.pack(a2); p.pack(a3); }
  void msgpack_unpack(object o) { if (o.type != ARRAY || o.via.array.size < 4) throw type_error(); o.via.array.ptr[0].convert(&a0); o.via.array.ptr[1].convert(&a1); o.via.array.ptr[2].convert(&a2); o.via.array.ptr[3].convert(&a3); } };
}
template <class S> template <class T> packer<S> &packer<S>::pack(const T &v) { adaptor<T>::put(*this, v); return *this; }
template <class T> void object::convert(T *v) const { adaptor<T>::get(*this, *v); }
template <class S, class T> void pack(S &s, const T &v) { packer<S> p(s); p.pack(v); }
template <class S, class T> void pack(S *s, const T &v) { packer<S> p(*s); p.pack(v); }
inline std::ostream &operator<<(std::ostream &s, const object &o) { switch (o.type) { case type::NIL: s << "nil"; break; case type::BOOLEAN: s << (o.via.boolean ? "true" : "false"); break; case type::POSITIVE_INTEGER: s << o.via.u64; break; case type::NEGATIVE_INTEGER: s << o.via.i64; break; case type::DOUBLE: s << o.via.dec; break; case type::RAW: (s << '"').write(o.via.raw.ptr, o.via.raw.size) << '"'; break; case type::ARRAY: s << "["; for (uint32_t i = 0; i < o.via.array.size; i++) { if (i) s << ", "; s << o.via.array.ptr[i]; } s << "]"; break; case type::MAP: s << "{"; for (uint32_t i = 0; i < o.via.map.size; i++) { if (i) s << ", "; s << o.via.map.ptr[i].key << "=>" << o.via.map.ptr[i].val; } s << "}"; break; default: s << "#<UNKNOWN " << (unsigned)o.type << ">"; } return s; }

class unpacker { public:
  unpacker() : z(new zone), off(0), used(0), buf(8192) {} ~unpacker() { delete z; }
  void reserve_buffer(size_t n) { if (off > 0 && off == used) off = used = 0; if (buf.size() - used >= n) return; if (off) { memmove(&buf[0], &buf[off], used - off); used -= off; off = 0; } while (buf.size() - used < n) buf.resize(buf.size() * 2); }
  char *buffer() { return &buf[0] + used; } size_t buffer_capacity() const { return buf.size() - used; }
  void buffer_consumed(size_t n) { if (n > buffer_capacity()) throw std::logic_error("more bytes consumed than the unpacker has room for"); used += n; }
  bool execute() { size_t p = off; if (!skip(p, 0)) return false; p = off; last = read(p); off = p; return true; }
  object data() { return last; } zone *release_zone() { zone *r = z; z = new zone; return r; } void reset() { last = object(); }
  private:
  zone *z; size_t off, used; std::vector<char> buf; object last; unpacker(const unpacker &); void operator=(const unpacker &);
  uint64_t be(size_t p, int n) const { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)buf[p + i]; return v; }
  struct head { type::object_type t; int len; uint64_t n; }; // bytes of the head; value, or number of bytes or elements
  bool peek(size_t p, head &h) const { if (p >= used) return false; unsigned c = (unsigned char)buf[p]; int w = 0; h.len = 1; h.n = 0; if (c < 0x80) { h.t = type::POSITIVE_INTEGER; h.n = c; return true; } if (c >= 0xe0) { h.t = type::NEGATIVE_INTEGER; h.n = (uint64_t)(int64_t)(signed char)c; return true; } if (c < 0x90) { h.t = type::MAP; h.n = c & 15; return true; } if (c < 0xa0) { h.t = type::ARRAY; h.n = c & 15; return true; } if (c < 0xc0) { h.t = type::RAW; h.n = c & 31; return true; }
    switch (c) { case 0xc0: h.t = type::NIL; return true; case 0xc2: case 0xc3: h.t = type::BOOLEAN; h.n = c & 1; return true; case 0xca: h.t = type::DOUBLE; w = 4; break; case 0xcb: h.t = type::DOUBLE; w = 8; break; case 0xcc: case 0xcd: case 0xce: case 0xcf: h.t = type::POSITIVE_INTEGER; w = 1 << (c - 0xcc); break; case 0xd0: case 0xd1: case 0xd2: case 0xd3: h.t = type::NEGATIVE_INTEGER; w = 1 << (c - 0xd0); break; case 0xda: h.t = type::RAW; w = 2; break; case 0xdb: h.t = type::RAW; w = 4; break; case 0xdc: h.t = type::ARRAY; w = 2; break; case 0xdd: h.t = type::ARRAY; w = 4; break; case 0xde: h.t = type::MAP; w = 2; break; case 0xdf: h.t = type::MAP; w = 4; break; default: throw unpack_error("parse error"); }
    h.len = 1 + w; if (p + h.len > used) return false; h.n = be(p + 1, w); if (h.t == type::NEGATIVE_INTEGER) { int sh = 64 - 8 * w; h.n = (uint64_t)((int64_t)(h.n << sh) >> sh); } if (c == 0xca) { uint32_t u = (uint32_t)h.n; float f; memcpy(&f, &u, 4); double d = f; memcpy(&h.n, &d, 8); } return true; }
  bool skip(size_t &p, int depth) { head h; if (depth > 32) throw unpack_error("parse error"); if (!peek(p, h)) return false; p += h.len; if (h.t == type::RAW) { p += h.n; return p <= used; } uint64_t k = h.t == type::ARRAY ? h.n : h.t == type::MAP ? 2 * h.n : 0; for (uint64_t i = 0; i < k; i++) if (!skip(p, depth + 1)) return false; return true; }
  object read(size_t &p) { head h; peek(p, h); p += h.len; object o; o.type = h.t; switch (h.t) { case type::NIL: break; case type::BOOLEAN: o.via.boolean = h.n != 0; break; case type::POSITIVE_INTEGER: o.via.u64 = h.n; break; case type::NEGATIVE_INTEGER: if ((int64_t)h.n >= 0) { o.type = type::POSITIVE_INTEGER; o.via.u64 = h.n; } else o.via.i64 = (int64_t)h.n; break; case type::DOUBLE: memcpy(&o.via.dec, &h.n, 8); break; case type::RAW: { char *q = z->take(h.n); memcpy(q, &buf[0] + p, h.n); p += h.n; o.via.raw.size = h.n; o.via.raw.ptr = q; break; } case type::ARRAY: { object *q = (object *)z->take(h.n * sizeof(object)); o.via.array.size = h.n; o.via.array.ptr = q; for (uint64_t i = 0; i < h.n; i++) { new (q + i) object(); q[i] = read(p); } break; } case type::MAP: { object_kv *q = (object_kv *)z->take(h.n * sizeof(object_kv)); o.via.map.size = h.n; o.via.map.ptr = q; for (uint64_t i = 0; i < h.n; i++) { new (q + i) object_kv(); q[i].key = read(p); q[i].val = read(p); } } } return o; }
};
}
#define MSGPACK_DEFINE(a, b, c) template <class P> void msgpack_pack(P &p) const { p.pack_array(3); p.pack(a); p.pack(b); p.pack(c); } void msgpack_unpack(msgpack::object o) { if (o.type != msgpack::type::ARRAY || o.via.array.size < 3) throw msgpack::type_error(); o.via.array.ptr[0].convert(&a); o.via.array.ptr[1].convert(&b); o.via.array.ptr[2].convert(&c); }
#endif
