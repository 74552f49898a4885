// Reference model of the protobuf binary format, independent of hpp_proto: schema tables, message values,
// a decoder with a three-valued verdict, a canonical encoder, a generator of values, a generator of alternative
// encodings, and a normaliser of encodings.
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace ref {
enum class Type { DOUBLE = 1, FLOAT, INT64, UINT64, INT32, FIXED64, FIXED32, BOOL, STRING, GROUP, MESSAGE, BYTES, UINT32, ENUM, SFIXED32, SFIXED64, SINT32, SINT64 };
enum class Kind { ONE, REP, MAP };
enum class Presence { IMPLICIT, EXPLICIT, REQUIRED };
struct EnumDesc { const char *name; bool closed; const int32_t *values; int n; const char *const *names; bool has(int32_t v) const { return std::find(values, values + n, v) != values + n; } };
struct FieldDesc {
  const char *name = nullptr; uint32_t number = 0; Type type{}; Kind kind{}; Presence presence{}; int oneof = -1; bool packed = false, closed = false, utf8 = false;
  int msg = -1, enum_ = -1; bool delimited = false; uint64_t def = 0; std::string defstr;
};
struct MsgDesc { int id; const char *name; const FieldDesc *fields; int nfields; int noneofs; bool map_entry; const FieldDesc *exts; int nexts; std::vector<std::pair<uint32_t, uint32_t>> ext_ranges; };
#include "schema_tables.inc"
#include "schema_ids.inc"

inline const MsgDesc &sub(const FieldDesc &f) { return g_msgs[f.msg]; }
inline bool is_msg(const FieldDesc &f) { return f.msg >= 0; }
inline bool is_str(const FieldDesc &f) { return f.type == Type::STRING || f.type == Type::BYTES; }

struct Msg;
struct Val {
  uint64_t u = 0; // canonical bits: signed values sign-extended to 64 bits; float/double bit patterns; fixed values zero-extended
  std::string s; std::shared_ptr<Msg> m;
  bool operator==(const Val &o) const;
};
struct Msg {
  const MsgDesc *d = nullptr;
  std::map<int, std::vector<Val>> f; // index into d->fields; absent or empty: not set
  std::string unk;                   // retained unknown records, canonical
  bool operator==(const Msg &o) const { return d == o.d && f == o.f && unk == o.unk; }
};
inline bool Val::operator==(const Val &o) const {
  if (u != o.u || s != o.s || !m != !o.m) return false;
  return !m || *m == *o.m;
}

// ---------------------------------------------------------------- rng
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
  uint64_t below(uint64_t n) { return n ? (next() >> 11) % n : 0; }
  bool chance(int num, int den) { return (int)below((uint64_t)den) < num; }
};

// ---------------------------------------------------------------- wire primitives
inline void put_varint(std::string &o, uint64_t v, int pad = 0) {
  while (v >= 128) { o += (char)(v | 128); v >>= 7; }
  if (pad <= 0) { o += (char)v; return; }
  o += (char)(v | 128);
  while (--pad > 0) o += (char)0x80;
  o += '\0';
}
inline int varint_len(uint64_t v) { int n = 1; while (v >= 128) { v >>= 7; ++n; } return n; }
inline void put_fixed(std::string &o, uint64_t v, int n) { for (int i = 0; i < n; ++i) o += (char)(v >> (8 * i)); }
enum Wire { VARINT = 0, I64 = 1, LEN = 2, SG = 3, EG = 4, I32 = 5 };
inline int wire_of(Type t) {
  switch (t) {
  case Type::DOUBLE: case Type::FIXED64: case Type::SFIXED64: return I64;
  case Type::FLOAT: case Type::FIXED32: case Type::SFIXED32: return I32;
  case Type::STRING: case Type::BYTES: case Type::MESSAGE: return LEN;
  case Type::GROUP: return SG;
  default: return VARINT;
  }
}
inline bool packable(Type t) { return wire_of(t) != LEN && wire_of(t) != SG; }
inline void put_tag(std::string &o, uint32_t num, int w, int pad = 0) { put_varint(o, ((uint64_t)num << 3) | (unsigned)w, pad); }
inline uint64_t zz(int64_t v) { return ((uint64_t)v << 1) ^ (uint64_t)(v >> 63); }
inline uint64_t zz32(int32_t v) { return (uint32_t)(((uint32_t)v << 1) ^ (uint32_t)(v >> 31)); }
inline uint64_t unzz(uint64_t v) { return (v >> 1) ^ (0 - (v & 1)); }
// varint payload of a canonical value
inline uint64_t raw_of(Type t, uint64_t u) {
  if (t == Type::SINT32) return zz32((int32_t)u);
  if (t == Type::SINT64) return zz((int64_t)u);
  if (t == Type::UINT32) return (uint32_t)u;
  if (t == Type::BOOL) return u != 0;
  return u;
}
// canonical value of a varint payload
inline uint64_t val_of(Type t, uint64_t raw) {
  switch (t) {
  case Type::INT32: case Type::ENUM: return (uint64_t)(int64_t)(int32_t)raw;
  case Type::UINT32: return (uint32_t)raw;
  case Type::BOOL: return raw != 0;
  case Type::SINT32: { uint32_t r = (uint32_t)raw; return (uint64_t)(int64_t)(int32_t)((r >> 1) ^ (0u - (r & 1))); }
  case Type::SINT64: return unzz(raw);
  default: return raw;
  }
}
inline uint64_t val_of_fixed(Type t, uint64_t raw) { return t == Type::SFIXED32 ? (uint64_t)(int64_t)(int32_t)raw : raw; }
inline uint64_t fixed_of(Type t, uint64_t u) { return wire_of(t) == I32 ? (uint32_t)u : u; }
inline void put_scalar(std::string &o, Type t, uint64_t u, int pad = 0) {
  switch (wire_of(t)) {
  case VARINT: put_varint(o, raw_of(t, u), pad); break;
  case I64: put_fixed(o, u, 8); break;
  case I32: put_fixed(o, fixed_of(t, u), 4); break;
  default: break;
  }
}

inline bool valid_utf8(std::string_view s) {
  size_t i = 0, n = s.size();
  auto b = [&](size_t k) { return (unsigned char)s[k]; };
  while (i < n) {
    unsigned c = b(i);
    if (c < 0x80) { ++i; continue; }
    int len = c >= 0xF0 && c <= 0xF4 ? 4 : c >= 0xE0 ? 3 : c >= 0xC2 && c < 0xE0 ? 2 : 0;
    if (c > 0xF4 || len == 0 || i + (size_t)len > n) return false;
    uint32_t cp = len == 2 ? c & 0x1F : len == 3 ? c & 0xF : c & 7;
    for (int k = 1; k < len; ++k) { if ((b(i + (size_t)k) & 0xC0) != 0x80) return false; cp = cp << 6 | (b(i + (size_t)k) & 0x3F); }
    if ((len == 3 && cp < 0x800) || (len == 4 && (cp < 0x10000 || cp > 0x10FFFF)) || (cp >= 0xD800 && cp <= 0xDFFF)) return false;
    i += (size_t)len;
  }
  return true;
}

// ---------------------------------------------------------------- decoder
enum Verdict { ACCEPT, REJECT, EITHER };
inline const char *vname(Verdict v) { return v == ACCEPT ? "accept" : v == REJECT ? "reject" : "either"; }
struct DecodeOpts {
  int limit = 100;       // nesting levels below the root
  bool drop = false;     // retain no unknown fields at all
  bool keep_all = false; // retain unknown fields of every message (otherwise only of messages with extension ranges)
  bool utf8 = true;      // validate UTF-8 where the schema requires it
  bool exts_as_fields = false;
};
struct Cur {
  const unsigned char *p, *e;
  bool either = false; bool deep = false;
  size_t left() const { return (size_t)(e - p); }
  // false: malformed
  bool varint(uint64_t &v, int maxn = 10) {
    v = 0;
    for (int i = 0;; ++i) {
      if (p == e || i == maxn) return false;
      unsigned c = *p++;
      if (i == 9) { if (c > 1) { if (c & 0x80) return false; either = true; } v |= (uint64_t)(c & 1) << 63; }
      else v |= (uint64_t)(c & 127) << (7 * i);
      if (!(c & 128)) return true;
    }
  }
  bool tag(uint32_t &num, int &w) {
    const auto *b = p; uint64_t v;
    if (!varint(v)) return false;
    if (p - b > 5 || (v >> 32)) { either = true; if (v >> 32) return false; }
    num = (uint32_t)(v >> 3); w = (int)(v & 7);
    return num != 0;
  }
  bool len(uint64_t &n) {
    if (!varint(n)) return false;
    if (n >> 31) { either = either || (n >> 32); return false; }
    return n <= left();
  }
  bool bytes(std::string &s) {
    uint64_t n; if (!len(n)) return false;
    s.assign((const char *)p, n); p += n; return true;
  }
};

inline const FieldDesc *find_field(const MsgDesc &d, uint32_t num, int *idx = nullptr) {
  for (int i = 0; i < d.nfields; ++i) if (d.fields[i].number == num) { if (idx) *idx = i; return &d.fields[i]; }
  return nullptr;
}
inline bool keeps(const MsgDesc &d, const DecodeOpts &o) { return !o.drop && (o.keep_all || !d.ext_ranges.empty()); }

// appends the canonical form of the unknown record whose tag has been read
inline bool skip(Cur &c, uint32_t num, int w, std::string &out, int depth_left, const MsgDesc *d = nullptr) {
  uint64_t v;
  switch (w) {
  case VARINT: {
    if (!c.varint(v)) return false;
    const FieldDesc *f = d ? find_field(*d, num) : nullptr; // unknown values of closed enums are 32-bit values
    put_tag(out, num, w); put_varint(out, f && f->closed ? (uint64_t)(int64_t)(int32_t)v : v); return true;
  }
  case I64: if (c.left() < 8) return false; put_tag(out, num, w); out.append((const char *)c.p, 8); c.p += 8; return true;
  case I32: if (c.left() < 4) return false; put_tag(out, num, w); out.append((const char *)c.p, 4); c.p += 4; return true;
  case LEN: { std::string s; if (!c.bytes(s)) return false; put_tag(out, num, w); put_varint(out, s.size()); out += s; return true; }
  case SG: {
    if (depth_left <= 0) c.either = true; // limits on nested unknown groups are not specified
    if (depth_left < -2000) return false;
    put_tag(out, num, SG);
    for (;;) {
      uint32_t n2; int w2;
      if (c.p == c.e || !c.tag(n2, w2)) return false;
      if (w2 == EG) { if (n2 != num) return false; put_tag(out, num, EG); return true; }
      if (!skip(c, n2, w2, out, depth_left - 1)) return false;
    }
  }
  default: return false;
  }
}

inline void clear_oneof(Msg &m, const FieldDesc &f, int keep) {
  if (f.oneof < 0) return;
  for (int i = 0; i < m.d->nfields; ++i) if (i != keep && m.d->fields[i].oneof == f.oneof) m.f.erase(i);
}

inline std::string canonical_records(std::string_view b, uint32_t expect, const MsgDesc *d = nullptr) {
  Cur c{(const unsigned char *)b.data(), (const unsigned char *)b.data() + b.size()};
  std::string out;
  while (c.p != c.e) {
    uint32_t n; int w;
    if (!c.tag(n, w) || (expect && n != expect) || !skip(c, n, w, out, 1 << 20, d)) return out + "<malformed records>";
  }
  return out;
}
// messages with extension ranges keep unknown fields grouped by field number
inline std::string regroup(std::string_view b) {
  Cur c{(const unsigned char *)b.data(), (const unsigned char *)b.data() + b.size()};
  std::map<uint32_t, std::string> by; std::string out;
  while (c.p != c.e) {
    uint32_t n; int w; std::string rec;
    if (!c.tag(n, w) || !skip(c, n, w, rec, 1 << 20)) return std::string(b);
    by[n] += rec;
  }
  for (auto &[n, r] : by) out += r;
  return out;
}
inline bool decode_into(Msg &m, Cur &c, const DecodeOpts &o, int depth, uint32_t end_group);
inline bool decode_sub(Msg &m, Cur &c, const DecodeOpts &o, int depth, uint32_t end_group) {
  if (depth > o.limit) { c.deep = true; return false; }
  return decode_into(m, c, o, depth, end_group);
}

inline bool decode_into(Msg &m, Cur &c, const DecodeOpts &o, int depth, uint32_t end_group) {
  const MsgDesc &d = *m.d;
  bool first = true;
  if (d.map_entry && c.p == c.e) { c.either = true; }
  while (c.p != c.e) {
    const auto *start = c.p; uint32_t num; int w;
    if (!c.tag(num, w)) return false;
    if (d.map_entry && first && (num != 1 || c.p - start != 1)) c.either = true; // entries whose key is not first
    first = false;
    if (w == EG) return end_group != 0 && num == end_group;
    int idx = -1; const FieldDesc *f = find_field(d, num, &idx);
    if (!f) {
      std::string rec;
      if (!skip(c, num, w, rec, o.limit - depth)) return false;
      if (keeps(d, o)) m.unk += rec;
      continue;
    }
    if (f->kind == Kind::MAP) {
      if (w != LEN) return false;
      uint64_t n; if (!c.len(n)) return false;
      Val v; v.m = std::make_shared<Msg>(); v.m->d = &sub(*f);
      std::string_view raw((const char *)c.p, n);
      Cur s{c.p, c.p + n}; c.p += n;
      bool ok = decode_sub(*v.m, s, o, depth + 1, 0);
      c.either |= s.either; c.deep |= s.deep;
      if (!ok) return false;
      if (v.m->f.count(-1)) { // the value is not a member of its closed enum: the entry is an unknown field
        if (v.m->f.count(0) == 0) c.either = true;
        if (keeps(d, o)) { put_tag(m.unk, num, LEN); put_varint(m.unk, raw.size()); m.unk += raw; }
        continue;
      }
      const FieldDesc &vf = sub(*f).fields[1];
      if (v.m->f.count(0) == 0 || v.m->f.count(1) == 0) c.either |= v.m->f.count(0) == 0;
      if (is_msg(vf) && v.m->f.count(1) == 0) { Val e; e.m = std::make_shared<Msg>(); e.m->d = &sub(vf); v.m->f[1] = {e}; }
      v.m->unk.clear();
      m.f[idx].push_back(v);
      continue;
    }
    if (is_msg(*f)) {
      bool grp = f->delimited;
      if (w != (grp ? SG : LEN)) return false;
      Val *dst = nullptr; Val nv; nv.m = std::make_shared<Msg>(); nv.m->d = &sub(*f);
      if (f->kind == Kind::ONE) {
        clear_oneof(m, *f, idx);
        auto &vec = m.f[idx]; if (vec.empty()) vec.push_back(nv);
        dst = &vec[0];
      } else { m.f[idx].push_back(nv); dst = &m.f[idx].back(); }
      if (grp) {
        const auto *b = c.p;
        if (!decode_sub(*dst->m, c, o, depth + 1, f->number)) return false;
        if (b == c.p) return false;
      } else {
        uint64_t n; if (!c.len(n)) return false;
        Cur s{c.p, c.p + n}; c.p += n;
        bool ok = decode_sub(*dst->m, s, o, depth + 1, 0);
        c.either |= s.either; c.deep |= s.deep;
        if (!ok) return false;
      }
      continue;
    }
    if (is_str(*f)) {
      if (w != LEN) return false;
      Val v; if (!c.bytes(v.s)) return false;
      if (f->utf8 && o.utf8 && !valid_utf8(v.s)) return false;
      if (f->kind == Kind::ONE) { clear_oneof(m, *f, idx); m.f[idx] = {v}; } else m.f[idx].push_back(v);
      continue;
    }
    auto take = [&](Cur &s) {
      Val v; uint64_t raw;
      if (wire_of(f->type) == VARINT) { if (!s.varint(raw)) return false; v.u = val_of(f->type, raw); }
      else {
        size_t n = wire_of(f->type) == I32 ? 4 : 8;
        if (s.left() < n) return false;
        raw = 0; for (size_t i = 0; i < n; ++i) raw |= (uint64_t)s.p[i] << (8 * i);
        s.p += n; v.u = val_of_fixed(f->type, raw);
      }
      if (f->closed && !g_enums[f->enum_].has((int32_t)v.u)) {
        if (d.map_entry) { m.f.erase(-1); m.f[-1] = {v}; return true; } // marks an entry holding an unknown value
        if (keeps(d, o)) { put_tag(m.unk, num, VARINT); put_varint(m.unk, v.u); }
        return true;
      }
      if (d.map_entry) m.f.erase(-1);
      if (f->kind == Kind::ONE) { clear_oneof(m, *f, idx); m.f[idx] = {v}; } else m.f[idx].push_back(v);
      return true;
    };
    if (w == wire_of(f->type)) { if (!take(c)) return false; }
    else if (w == LEN && f->kind == Kind::REP) {
      uint64_t n; if (!c.len(n)) return false;
      Cur s{c.p, c.p + n}; c.p += n;
      while (s.p != s.e) { if (!take(s)) { c.either |= s.either; return false; } }
      c.either |= s.either;
    } else return false;
  }
  return end_group == 0;
}

inline std::string map_key(const Msg &entry) { // order-preserving for equality only
  const FieldDesc &k = entry.d->fields[0]; std::string o;
  auto it = entry.f.find(0);
  if (it == entry.f.end() || it->second.empty()) { if (!is_str(k)) put_scalar(o, k.type, 0); return o; }
  if (is_str(k)) return it->second[0].s;
  put_scalar(o, k.type, it->second[0].u); return o;
}
// Removes defaults of implicit-presence fields, fills map entries, orders maps by key keeping the last value of a key.
inline void canon(Msg &m) {
  if (!m.d->ext_ranges.empty()) m.unk = regroup(m.unk);
  for (auto it = m.f.begin(); it != m.f.end();) {
    if (it->first < 0) { ++it; continue; }
    const FieldDesc &f = m.d->fields[it->first];
    auto &v = it->second;
    if (v.empty()) { it = m.f.erase(it); continue; }
    for (auto &x : v) if (x.m) canon(*x.m);
    if (f.kind == Kind::ONE && f.presence == Presence::IMPLICIT && f.oneof < 0 && !m.d->map_entry && !is_msg(f) && v[0].u == 0 && v[0].s.empty()) { it = m.f.erase(it); continue; }
    if (f.kind == Kind::MAP) {
      std::map<std::string, Val> by;
      for (auto &x : v) by[map_key(*x.m)] = x;
      v.clear();
      for (auto &[k, x] : by) v.push_back(x);
    }
    ++it;
  }
  if (m.d->map_entry) {
    m.unk.clear();
    for (int i = 0; i < 2; ++i) if (m.f[i].empty()) {
      Val v; const FieldDesc &f = m.d->fields[i];
      if (is_msg(f)) { v.m = std::make_shared<Msg>(); v.m->d = &sub(f); }
      else v.u = f.def; // first enum value for closed enums
      m.f[i] = {v};
    }
  } else for (int i = 0; i < m.d->nfields; ++i) { // required fields are plain members: absent is indistinguishable from zero
    const FieldDesc &f = m.d->fields[i];
    if (f.presence == Presence::REQUIRED && m.f[i].empty()) {
      Val v; if (is_msg(f)) { v.m = std::make_shared<Msg>(); v.m->d = &sub(f); canon(*v.m); } else { v.u = f.def; v.s = f.defstr; }
      m.f[i] = {v};
    } else if (m.f[i].empty()) m.f.erase(i);
  }
}
struct Decoded { Verdict v; Msg m; bool deep = false; };
inline Decoded decode(const MsgDesc &d, std::string_view b, const DecodeOpts &o = {}) {
  Decoded r; r.m.d = &d;
  Cur c{(const unsigned char *)b.data(), (const unsigned char *)b.data() + b.size()};
  bool ok = decode_into(r.m, c, o, 0, 0);
  r.v = c.either ? EITHER : ok ? ACCEPT : REJECT; r.deep = c.deep;
  if (!ok) { if (r.v == EITHER) r.m = Msg{&d, {}, {}}; }
  if (ok) canon(r.m);
  if (!ok && r.v == EITHER) r.deep = false;
  return r;
}

// ---------------------------------------------------------------- canonical encoder
inline void encode(const Msg &m, std::string &o);
inline std::string encode(const Msg &m) { std::string o; encode(m, o); return o; }
inline void put_field(std::string &o, const FieldDesc &f, const Val &v) {
  if (is_msg(f)) {
    if (f.delimited) { put_tag(o, f.number, SG); encode(*v.m, o); put_tag(o, f.number, EG); }
    else { std::string b = encode(*v.m); put_tag(o, f.number, LEN); put_varint(o, b.size()); o += b; }
  } else if (is_str(f)) { put_tag(o, f.number, LEN); put_varint(o, v.s.size()); o += v.s; }
  else { put_tag(o, f.number, wire_of(f.type)); put_scalar(o, f.type, v.u); }
}
inline void encode(const Msg &m, std::string &o) {
  std::vector<int> order;
  for (auto &[i, v] : m.f) if (i >= 0 && !v.empty()) order.push_back(i);
  std::sort(order.begin(), order.end(), [&](int a, int b) { return m.d->fields[a].number < m.d->fields[b].number; });
  for (int i : order) {
    const FieldDesc &f = m.d->fields[i]; auto &v = m.f.at(i);
    if (f.packed) {
      std::string b; for (auto &x : v) put_scalar(b, f.type, x.u);
      put_tag(o, f.number, LEN); put_varint(o, b.size()); o += b;
    } else for (auto &x : v) put_field(o, f, x);
  }
  o += m.unk;
}
inline bool too_deep(const Msg &m, int limit, int depth = 0) {
  if (depth > limit) return true;
  for (auto &[i, v] : m.f) for (auto &x : v) if (x.m && too_deep(*x.m, limit, depth + 1)) return true;
  return false;
}

// Orders the records of a valid encoding by field number (stable), at every level described by the schema, and the
// entries of a map by their bytes; nothing else is re-encoded. Equal results mean equal up to those orders.
inline bool normalize(const MsgDesc &d, std::string_view b, std::string &out, uint32_t end_group = 0, size_t *used = nullptr) {
  Cur c{(const unsigned char *)b.data(), (const unsigned char *)b.data() + b.size()};
  std::map<uint32_t, std::vector<std::string>> recs;
  auto finish = [&] {
    for (auto &[n, v] : recs) {
      const FieldDesc *f = find_field(d, n);
      if (f && f->kind == Kind::MAP) std::sort(v.begin(), v.end());
      for (auto &r : v) out += r;
    }
    if (used) *used = (size_t)(c.p - (const unsigned char *)b.data());
    return true;
  };
  while (c.p != c.e) {
    const auto *st = c.p; uint32_t n; int w;
    if (!c.tag(n, w)) return false;
    std::string rec((const char *)st, (size_t)(c.p - st));
    if (w == EG) { if (end_group == 0 || end_group != n) return false; return finish(); }
    const FieldDesc *f = find_field(d, n);
    if (f && is_msg(*f) && w == LEN && !f->delimited) {
      const auto *ls = c.p; uint64_t len; if (!c.len(len)) return false;
      rec.append((const char *)ls, (size_t)(c.p - ls));
      std::string body;
      if (!normalize(sub(*f), {(const char *)c.p, (size_t)len}, body)) return false;
      c.p += len; rec += body;
    } else if (f && is_msg(*f) && w == SG && f->delimited) {
      std::string body; size_t u = 0;
      const auto *bs = c.p;
      if (!normalize(sub(*f), {(const char *)c.p, c.left()}, body, n, &u)) return false;
      (void)bs; c.p += u; rec += body; put_tag(rec, n, EG);
    } else {
      const auto *ps = c.p; std::string ign;
      if (!skip(c, n, w, ign, 1 << 20)) return false;
      rec.append((const char *)ps, (size_t)(c.p - ps));
    }
    recs[n].push_back(rec);
  }
  if (end_group) return false;
  return finish();
}
inline std::string normalized(const MsgDesc &d, std::string_view b) {
  std::string o; if (!normalize(d, b, o)) return "<invalid encoding>"; return o;
}

// ---------------------------------------------------------------- value generator
struct GenOpts { int max_depth = 3; int rep_max = 4; int fill_num = 1, fill_den = 2; size_t str_max = 20; bool big = false; bool invalid_utf8_ok = false; bool unknown_enum = true; };
inline uint64_t gen_scalar(Rng &r, const FieldDesc &f) {
  static const uint64_t edges[] = {0, 1, 2, 127, 128, 129, 255, 256, 16383, 16384, 2097151, 2097152, 268435455, 268435456, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull,
    34359738367ull, 34359738368ull, 4398046511103ull, 4398046511104ull, 562949953421311ull, 562949953421312ull, 72057594037927935ull, 72057594037927936ull,
    0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0xffffffff80000000ull, 0xffffffff7fffffffull};
  uint64_t v;
  switch (r.below(4)) {
  case 0: v = edges[r.below(std::size(edges))]; break;
  case 1: v = r.next() >> r.below(64); break;
  case 2: v = 0 - (r.next() >> r.below(64)); break;
  default: v = r.below(200); break;
  }
  switch (f.type) {
  case Type::BOOL: return v & 1;
  case Type::INT32: case Type::SINT32: case Type::SFIXED32: return (uint64_t)(int64_t)(int32_t)v;
  case Type::UINT32: case Type::FIXED32: return (uint32_t)v;
  case Type::ENUM: {
    const EnumDesc &e = g_enums[f.enum_];
    if (f.closed || r.chance(3, 4)) return (uint64_t)(int64_t)e.values[r.below((uint64_t)e.n)];
    return (uint64_t)(int64_t)(int32_t)v;
  }
  case Type::FLOAT: {
    static const uint32_t fs[] = {0, 0x80000000u, 0x7f800000u, 0xff800000u, 0x7fc00000u, 0x3f800000u, 1, 0x7f7fffffu, 0x00800000u, 0x40490fdbu};
    uint32_t b = r.chance(1, 2) ? fs[r.below(std::size(fs))] : (uint32_t)r.next();
    if ((b & 0x7f800000u) == 0x7f800000u && (b & 0x7fffffu)) b |= 0x00400000u;
    return b;
  }
  case Type::DOUBLE: {
    static const uint64_t ds[] = {0, 1ull << 63, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0x7ff8000000000000ull, 0x3ff0000000000000ull, 1, 0x7fefffffffffffffull, 0x0010000000000000ull};
    uint64_t b = r.chance(1, 2) ? ds[r.below(std::size(ds))] : r.next();
    if ((b & 0x7ff0000000000000ull) == 0x7ff0000000000000ull && (b & 0xfffffffffffffull)) b |= 0x0008000000000000ull;
    return b;
  }
  default: return v;
  }
}
inline std::string gen_string(Rng &r, const FieldDesc &f, const GenOpts &o) {
  size_t n;
  switch (r.below(8)) {
  case 0: n = 0; break;
  case 1: n = o.str_max >= 300 ? 126 + r.below(4) : r.below(o.str_max + 1); break;
  case 2: n = r.below(o.str_max + 1); break;
  case 3: n = 15 + r.below(3); break;
  default: n = r.below(12); break;
  }
  std::string s;
  if (f.type == Type::BYTES || (o.invalid_utf8_ok && !f.utf8 && r.chance(1, 4))) { for (size_t i = 0; i < n; ++i) s += (char)r.next(); return s; }
  static const char *cps[] = {"\x7f", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf"};
  while (s.size() < n) {
    if (r.chance(1, 6)) s += cps[r.below(std::size(cps))];
    else if (r.chance(1, 20)) s += '\0';
    else s += (char)(32 + r.below(95));
  }
  return s;
}
inline Msg gen(const MsgDesc &d, Rng &r, const GenOpts &o, int depth = 0);
inline Val gen_val(const FieldDesc &f, Rng &r, const GenOpts &o, int depth) {
  Val v;
  if (is_msg(f)) { v.m = std::make_shared<Msg>(gen(sub(f), r, o, depth + 1)); }
  else if (is_str(f)) v.s = gen_string(r, f, o);
  else v.u = gen_scalar(r, f);
  return v;
}
inline void gen_unknown(std::string &o, Rng &r, const MsgDesc &d, int depth = 0) {
  uint32_t num;
  static const uint32_t nums[] = {49, 50, 99, 999, 2046, 2049, 18998, 33554431u, 33554432u, 268435455u, 268435456u, 536870910u, 300, 1 << 20, 21, 47};
  int tries = 0;
  do { num = r.chance(1, 2) ? nums[r.below(std::size(nums))] : (uint32_t)(1 + r.below(1u << (1 + r.below(29)))); } while ((find_field(d, num) || num > 536870911u || num == 0) && ++tries < 50);
  if (tries >= 50) num = 536870909u;
  int w = (int)r.below(depth < 3 ? 5 : 4);
  static const int ws[] = {VARINT, I64, LEN, I32, SG};
  w = ws[w];
  put_tag(o, num, w);
  switch (w) {
  case VARINT: put_varint(o, r.next() >> r.below(64)); break;
  case I64: put_fixed(o, r.next(), 8); break;
  case I32: put_fixed(o, r.next(), 4); break;
  case LEN: { size_t n = r.below(r.chance(1, 10) ? 200 : 8); put_varint(o, n); for (size_t i = 0; i < n; ++i) o += (char)r.next(); break; }
  case SG: {
    static const MsgDesc nodesc{};
    for (int k = (int)r.below(3); k > 0; --k) gen_unknown(o, r, nodesc, depth + 1);
    put_tag(o, num, EG);
  }
  }
}
inline Msg gen(const MsgDesc &d, Rng &r, const GenOpts &o, int depth) {
  Msg m; m.d = &d;
  if (d.map_entry) {
    m.f[0] = {gen_val(d.fields[0], r, o, depth)};
    m.f[1] = {gen_val(d.fields[1], r, o, depth)};
    return m;
  }
  for (int i = 0; i < d.nfields; ++i) {
    const FieldDesc &f = d.fields[i];
    if (f.presence != Presence::REQUIRED && !r.chance(o.fill_num, o.fill_den)) continue;
    if (is_msg(f) && depth >= o.max_depth && f.presence != Presence::REQUIRED) continue;
    if (f.oneof >= 0) {
      bool taken = false;
      for (int k = 0; k < i; ++k) if (d.fields[k].oneof == f.oneof && m.f.count(k)) taken = true;
      if (taken) { if (!r.chance(1, 3)) continue; clear_oneof(m, f, i); }
    }
    if (f.kind == Kind::ONE) m.f[i] = {gen_val(f, r, o, depth)};
    else {
      size_t n = o.big && r.chance(1, 8) ? r.below(200) : 1 + r.below((uint64_t)o.rep_max);
      if (is_msg(f) && depth > 0) n = 1 + r.below(2);
      auto &v = m.f[i];
      for (size_t k = 0; k < n; ++k) v.push_back(gen_val(f, r, o, depth));
    }
  }
  if (depth == 0) canon(m);
  return m;
}

// ---------------------------------------------------------------- alternative encodings
struct AltOpts { bool overlong = true, unknown = true, split = true, repack = true, dup = true, reorder = true, unknown_enum = true, dup_keys = true; };
inline void alt_encode(const Msg &m, Rng &r, const AltOpts &a, const GenOpts &go, std::string &o, int depth = 0) {
  auto pad = [&](uint64_t v, int maxlen) { int room = maxlen - varint_len(v); return a.overlong && room > 0 && r.chance(1, 12) ? (int)(1 + r.below((uint64_t)room)) : 0; };
  auto tag = [&](std::string &s, uint32_t num, int w) { uint64_t t = ((uint64_t)num << 3) | (unsigned)w; put_varint(s, t, pad(t, 5)); };
  auto scalar = [&](std::string &s, Type t, uint64_t u) {
    if (wire_of(t) == VARINT) {
      uint64_t raw = raw_of(t, u);
      if (a.overlong && r.chance(1, 12)) {
        if (t == Type::BOOL && raw) raw = r.next() | 1;
        else if (t == Type::UINT32 || t == Type::SINT32) raw |= (r.next() & 1) ? 0xFFFFFFFF00000000ull : (r.next() << 32);
        else if (t == Type::INT32 || t == Type::ENUM) raw = r.chance(1, 2) ? (uint32_t)raw : ((uint32_t)raw | (r.next() << 32));
      }
      put_varint(s, raw, pad(raw, 10));
    } else put_scalar(s, t, u);
  };
  auto length = [&](std::string &s, uint64_t n) { put_varint(s, n, pad(n, 5)); };
  struct Rec { uint32_t num; int oneof; std::string b; };
  std::vector<Rec> recs;
  for (auto &[i, v] : m.f) {
    if (i < 0) continue;
    const FieldDesc &f = m.d->fields[i];
    auto one = [&](const Val &x) {
      std::string s;
      if (is_msg(f)) {
        if (a.split && f.kind == Kind::ONE && r.chance(1, 6)) { // two occurrences that merge
          Msg p1, p2; p1.d = p2.d = x.m->d;
          for (auto &[k, w] : x.m->f) {
            if (k < 0) continue;
            const FieldDesc &cf = x.m->d->fields[k];
            if (cf.kind != Kind::ONE && !w.empty()) { size_t cut = r.below(w.size() + 1); p1.f[k].assign(w.begin(), w.begin() + (long)cut); p2.f[k].assign(w.begin() + (long)cut, w.end()); }
            else (r.chance(1, 2) ? p1 : p2).f[k] = w;
          }
          p2.unk = x.m->unk;
          for (const Msg *p : {&p1, &p2}) {
            std::string b, t; alt_encode(*p, r, a, go, b, depth + 1);
            if (f.delimited) { tag(t, f.number, SG); t += b; tag(t, f.number, EG); } else { tag(t, f.number, LEN); length(t, b.size()); t += b; }
            recs.push_back({f.number, f.oneof, t});
          }
          return;
        }
        std::string b; alt_encode(*x.m, r, a, go, b, depth + 1);
        if (f.delimited) { tag(s, f.number, SG); s += b; tag(s, f.number, EG); } else { tag(s, f.number, LEN); length(s, b.size()); s += b; }
      } else if (is_str(f)) { tag(s, f.number, LEN); length(s, x.s.size()); s += x.s; }
      else { tag(s, f.number, wire_of(f.type)); scalar(s, f.type, x.u); }
      recs.push_back({f.number, f.oneof, s});
    };
    if (f.kind == Kind::REP && packable(f.type)) {
      for (size_t k = 0; k < v.size();) {
        bool pk = a.repack ? r.chance(1, 2) : f.packed;
        size_t n = a.repack ? 1 + r.below(v.size() - k) : v.size() - k;
        if (pk) {
          std::string b, s; for (size_t q = 0; q < n; ++q) scalar(b, f.type, v[k + q].u);
          tag(s, f.number, LEN); length(s, b.size()); s += b; recs.push_back({f.number, f.oneof, s});
        } else for (size_t q = 0; q < n; ++q) one(v[k + q]);
        k += n;
        if (a.repack && r.chance(1, 20)) { std::string s; tag(s, f.number, LEN); length(s, 0); recs.push_back({f.number, f.oneof, s}); }
      }
    } else {
      if (f.kind == Kind::ONE && a.dup && !m.d->map_entry && !is_msg(f) && r.chance(1, 8)) one(gen_val(f, r, go, 99));
      for (auto &x : v) {
        if (f.kind == Kind::MAP && a.dup_keys && r.chance(1, 6)) { // an earlier entry with the same key
          Val y; y.m = std::make_shared<Msg>(*x.m); y.m->f[1] = {gen_val(sub(f).fields[1], r, go, 99)}; one(y);
        }
        one(x);
      }
      if (f.kind == Kind::MAP && a.unknown_enum && sub(f).fields[1].closed && r.chance(1, 3)) { // an entry whose value is outside the closed enum
        std::string b, s; put_field(b, sub(f).fields[0], v.empty() || r.chance(1, 2) ? gen_val(sub(f).fields[0], r, go, 99) : v[0].m->f[0][0]);
        put_tag(b, 2, VARINT); put_varint(b, r.chance(1, 2) ? 77777 : (uint64_t)-9);
        if (r.chance(1, 6)) { put_tag(b, 2, VARINT); put_varint(b, 1); }
        tag(s, f.number, LEN); length(s, b.size()); s += b; recs.push_back({f.number, f.oneof, s});
      }
    }
    if (a.unknown_enum && f.closed && f.type == Type::ENUM && !m.d->map_entry && r.chance(1, 5)) {
      std::string s; tag(s, f.number, VARINT); uint64_t u = 5 + r.below(1) + 77777; if (r.chance(1, 3)) u = (uint64_t)(int64_t)-77; scalar(s, f.type, u); recs.push_back({f.number, f.oneof, s});
    }
    if (a.dup && f.oneof >= 0 && r.chance(1, 3)) { // an alternative that is overridden
      for (int k = 0; k < m.d->nfields; ++k) if (m.d->fields[k].oneof == f.oneof && k != i && r.chance(1, 3)) {
        const FieldDesc &g = m.d->fields[k]; Val x = gen_val(g, r, go, 99);
        std::string s; put_field(s, g, x); recs.insert(recs.begin() + (long)(recs.size() - v.size()), Rec{g.number, g.oneof, s});
        break;
      }
    }
  }
  if (a.unknown && !m.d->map_entry) for (int k = (int)r.below(depth ? 2 : 4); k > 0; --k) { std::string s; gen_unknown(s, r, *m.d); recs.push_back({UINT32_MAX, -1, s}); }
  if (a.reorder && !m.d->map_entry && recs.size() > 1) { // keep the relative order of one field, one oneof, and of the unknown fields
    for (size_t k = 0; k < recs.size() * 2; ++k) {
      size_t i = r.below(recs.size() - 1);
      auto &x = recs[i], &y = recs[i + 1];
      if (x.num == y.num || (x.oneof >= 0 && x.oneof == y.oneof)) continue;
      std::swap(x, y);
    }
    if (r.chance(1, 4)) // descending field numbers
      for (size_t pass = 0; pass < recs.size(); ++pass)
        for (size_t i = 0; i + 1 < recs.size(); ++i) if (recs[i].num < recs[i + 1].num && !(recs[i].oneof >= 0 && recs[i].oneof == recs[i + 1].oneof)) std::swap(recs[i], recs[i + 1]);
  }
  for (auto &x : recs) o += x.b;
  o += m.unk;
}

// ---------------------------------------------------------------- printing
inline std::string hex(std::string_view b, size_t max = 400) {
  std::string o; char t[4];
  for (size_t i = 0; i < b.size() && i < max; ++i) { std::snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); o += t; }
  if (b.size() > max) o += "...";
  return o;
}
inline std::string show(const Msg &m, int depth = 0) {
  std::string o = "{";
  for (auto &[i, v] : m.f) {
    if (i < 0) { o += "<unknown enum>"; continue; }
    const FieldDesc &f = m.d->fields[i];
    o += std::string(f.name) + ":";
    if (v.size() != 1 || f.kind != Kind::ONE) o += "[";
    for (auto &x : v) { if (x.m) o += depth > 8 ? "..." : show(*x.m, depth + 1); else if (is_str(f)) o += "\"" + hex(x.s, 40) + "\""; else o += std::to_string((long long)x.u); o += " "; }
    if (v.size() != 1 || f.kind != Kind::ONE) o += "]";
  }
  if (!m.unk.empty()) o += " unknown=" + hex(m.unk, 60);
  return o + "}";
}
inline std::string diff(const Msg &a, const Msg &b, const std::string &path = "") {
  if (a == b) return "";
  for (int i = 0; i < a.d->nfields; ++i) {
    static const std::vector<Val> none;
    auto &x = a.f.count(i) ? a.f.at(i) : none; auto &y = b.f.count(i) ? b.f.at(i) : none;
    if (x == y) continue;
    std::string p = path + "." + a.d->fields[i].name;
    if (x.size() != y.size()) return p + " count " + std::to_string(x.size()) + " vs " + std::to_string(y.size());
    for (size_t k = 0; k < x.size(); ++k) if (!(x[k] == y[k])) {
      if (x[k].m && y[k].m) return diff(*x[k].m, *y[k].m, p + "[" + std::to_string(k) + "]");
      return p + "[" + std::to_string(k) + "] " + std::to_string((long long)x[k].u) + "/" + hex(x[k].s, 40) + " vs " + std::to_string((long long)y[k].u) + "/" + hex(y[k].s, 40);
    }
  }
  if (a.unk != b.unk) return path + " unknown " + hex(a.unk, 80) + " vs " + hex(b.unk, 80);
  return path + " differs";
}
} // namespace ref
