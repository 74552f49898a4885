// Driver of the generated-message checks: P01-P11, P19 (see DESIGN.md). It contains no hpp_proto template itself; the
// code under test is reached through the boxes registered by the tu.cpp objects it is linked with.
#include "boxif.hpp"
#include "mon.hpp"
#include <cmath>
#include <cstddef>
#include <new>
using namespace ref;

namespace ref { std::vector<Box> &boxes() { static std::vector<Box> b; return b; } bool g_read_absent = false; MemWatch g_mem; }

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
#define VP_HOOKS 1
#endif
#endif
static size_t g_max_alloc = 0;
static void on_malloc(const volatile void *, size_t n) { if (n > g_max_alloc) g_max_alloc = n; }
static void on_free(const volatile void *) {}

#ifdef VP_UTF8
static uint64_t g_utf8_calls = 0;
extern "C" bool is_utf8(const char *p, size_t n) { ++g_utf8_calls; return valid_utf8(std::string_view(p, n)); }
#endif

#ifdef VP_MEM // every allocation outside the supplied resources goes through here
static void mem_event() { if (g_mem.armed) { ++g_mem.events; if (g_mem.fail_at >= 0 && (int64_t)g_mem.events == g_mem.fail_at + 1) throw std::bad_alloc(); } }
static void *raw(size_t n, size_t a) { void *p = a <= 16 ? std::malloc(n ? n : 1) : std::aligned_alloc(a, (n + a - 1) / a * a); if (!p) std::abort(); return p; }
static void *op_new(size_t n, size_t a) { mem_event(); if (g_mem.armed) ++g_mem.news; return raw(n, a); }
void *operator new(size_t n) { return op_new(n, 1); }
void *operator new[](size_t n) { return op_new(n, 1); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (g_mem.armed) ++g_mem.news; return raw(n, 1); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { if (g_mem.armed) ++g_mem.news; return raw(n, 1); }
void operator delete(void *p) noexcept { std::free(p); }
void operator delete[](void *p) noexcept { std::free(p); }
void operator delete(void *p, size_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t) noexcept { std::free(p); }
void operator delete(void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { std::free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { std::free(p); }
#endif

namespace {
std::string mname(const Box &b) { return std::string(b.desc().name) + "/" + b.traits; }
std::string mode() { return mon::g.mode; }
void bad(const Box &b, const std::string &kind, const std::string &detail) { mon::fail(mode() + ":" + mname(b) + ":" + kind, detail); }

bool has_nan(const Msg &m) {
  for (auto &[i, v] : m.f) {
    if (i < 0) continue;
    const FieldDesc &f = m.d->fields[i];
    for (auto &x : v) {
      if (x.m && has_nan(*x.m)) return true;
      if (f.type == Type::FLOAT && std::isnan(std::bit_cast<float>((uint32_t)x.u))) return true;
      if (f.type == Type::DOUBLE && std::isnan(std::bit_cast<double>(x.u))) return true;
    }
  }
  return false;
}
bool multi_map(const Msg &m) {
  for (auto &[i, v] : m.f) {
    if (i < 0) continue;
    if (m.d->fields[i].kind == Kind::MAP && v.size() > 1) return true;
    for (auto &x : v) if (x.m && multi_map(*x.m)) return true;
  }
  return false;
}
Msg cget(const Obj &o) { Msg m = o.get(); canon(m); return m; }
DecodeOpts dopts(const Box &b) { DecodeOpts o; o.keep_all = b.keep_all; o.drop = b.drops;
#ifndef VP_UTF8
  o.utf8 = false;
#endif
  return o; }
void note_shape(const Msg &m, int depth = 0) { // what the monitors saw, per construct
  for (auto &[i, v] : m.f) {
    if (i < 0 || v.empty()) continue;
    const FieldDesc &f = m.d->fields[i];
    static const char *kinds[] = {"one", "rep", "map"};
    std::string k = std::string("seen:") + kinds[(int)f.kind] + (f.oneof >= 0 ? "-oneof" : "") + (f.delimited ? "-group" : is_msg(f) ? "-msg" : is_str(f) ? "-str" : f.type == Type::ENUM ? (f.closed ? "-closed" : "-enum") : "-num") + (f.packed ? "-packed" : "");
    mon::count(k);
    if (depth < 6) for (auto &x : v) if (x.m && f.kind != Kind::MAP) note_shape(*x.m, depth + 1);
  }
  if (!m.unk.empty()) mon::count("seen:unknown");
}

GenOpts pick_opts(Rng &r) {
  GenOpts o;
  switch (r.below(6)) {
  case 0: o.fill_num = 1; o.fill_den = 8; break;
  case 1: o.fill_num = 9; o.fill_den = 10; o.max_depth = 2; break;
  case 2: o.big = true; o.str_max = 400; o.max_depth = 2; break;
  case 3: o.fill_num = 1; o.fill_den = 4; o.max_depth = 5; break;
  default: break;
  }
  o.invalid_utf8_ok = r.chance(1, 2);
  return o;
}
void drop_unknown(Msg &m) { m.unk.clear(); for (auto &[i, v] : m.f) for (auto &x : v) if (x.m) drop_unknown(*x.m); }
Msg gen_for(const Box &b, Rng &r) { Msg m = gen(b.desc(), r, pick_opts(r)); if (b.drops) drop_unknown(m); return m; }
const Box &pick_box(uint64_t c) { auto &bs = boxes(); return bs[(size_t)((c * (uint64_t)mon::g.nshards + (uint64_t)mon::g.shard) % bs.size())]; }

// ------------------------------------------------------------------ P01
void p01(const Box &b, Rng &r) {
  Msg m = gen_for(b, r);
  std::string enc = encode(m);
  mon::begin(("p01 " + mname(b)).c_str(), enc);
  if (!m.f.empty()) mon::seen(mname(b), enc);
  note_shape(m);
  auto o = b.make();
  o->set(m);
  Msg before = cget(*o);
  if (!(before == m)) return bad(b, "set", "value read back from the message differs from the value stored: " + diff(m, before));
  std::string bytes, bytes2;
  int ec = o->write(bytes, W_VECTOR);
  if (ec) return bad(b, "write-status", "serializing " + show(m) + " failed with " + std::to_string(ec));
  if (!(cget(*o) == m)) bad(b, "write-modifies", "serializing changed the message " + show(m));
  auto o2 = b.make();
  ec = o2->read(bytes, R_SPAN);
  if (ec) return bad(b, "read-status", "parsing " + hex(bytes) + " failed with " + std::to_string(ec) + " for " + show(m));
  Msg after = cget(*o2);
  if (!(after == m)) return bad(b, "value", "round trip of " + show(m) + " through " + hex(bytes) + " changed " + diff(m, after));
  if (!has_nan(m) && !o->eq(*o2)) bad(b, "equal", "operator== says the round trip of " + show(m) + " differs");
  ec = o2->write(bytes2, W_VECTOR);
  if (ec) return bad(b, "rewrite-status", "serializing again failed with " + std::to_string(ec));
  if (multi_map(m) ? normalized(*m.d, bytes) != normalized(*m.d, bytes2) : bytes != bytes2) bad(b, "rewrite", hex(bytes) + " became " + hex(bytes2));
  // an object that held something else gives the same result
  Msg other = gen_for(b, r); auto o3 = b.make(); o3->set(other);
  ec = o3->read(bytes, R_SPAN);
  if (ec || !(cget(*o3) == m)) bad(b, "reused", "parsing " + hex(bytes) + " into a used message gives " + show(cget(*o3)));
  if (mon::samples.size() < 6 && r.chance(1, 40)) mon::sample(mname(b) + " " + show(m) + " -> " + hex(bytes, 100));
}

// ------------------------------------------------------------------ P02
void check_read(const Box &b, const std::string &bytes, ReadKind k, const Decoded &d, const std::string &tag) {
  auto o = b.make();
  int ec = o->read(bytes, k);
  if (ec == -77) return bad(b, tag + "input-modified", "parsing changed the input " + hex(bytes));
  if (d.v == EITHER) { mon::count("verdict:either"); (void)o->get(); return; }
  if ((ec == 0) != (d.v == ACCEPT)) return bad(b, tag + (d.v == ACCEPT ? "rejected" : "accepted"), std::string("reference says ") + vname(d.v) + ", status " + std::to_string(ec) + " for " + hex(bytes));
  Msg got = cget(*o);
  if (d.v == ACCEPT) {
    mon::count("verdict:accept");
    if (!(got == d.m)) return bad(b, tag + "value", "differs at " + diff(d.m, got) + " when parsing " + hex(bytes) + ": expected " + show(d.m) + " got " + show(got));
  } else mon::count("verdict:reject");
}
void p02(const Box &b, Rng &r) {
  Msg m = gen_for(b, r);
  std::string enc = encode(m);
  mon::begin(("p02 " + mname(b)).c_str(), enc);
  if (!m.f.empty()) mon::seen(mname(b) + "w", enc);
  note_shape(m);
  auto o = b.make(); o->set(m);
  std::string bytes;
  int ec = o->write(bytes, W_VECTOR);
  if (ec) return bad(b, "write-status", "serializing " + show(m) + " failed with " + std::to_string(ec));
  if (normalized(*m.d, bytes) != normalized(*m.d, enc)) return bad(b, "encoding", "serializing " + show(m) + " gave " + hex(bytes) + ", a canonical encoding is " + hex(enc));
  check_read(b, enc, R_SPAN, decode(b.desc(), enc, dopts(b)), "canonical-");
  for (int k = 0; k < 3; ++k) {
    AltOpts a; GenOpts go; std::string alt;
    if (k == 1) { a.overlong = a.unknown = false; } else if (k == 2) { a.reorder = false; }
    alt_encode(m, r, a, go, alt);
    mon::begin(("p02 alt " + mname(b)).c_str(), alt);
    mon::seen(mname(b), alt);
    Decoded d = decode(b.desc(), alt, dopts(b));
    if (d.v != ACCEPT) { mon::count(std::string("alt-not-accept:") + vname(d.v)); continue; }
    check_read(b, alt, R_SPAN, d, "alternative-");
    if (mon::samples.size() < 6 && r.chance(1, 40)) mon::sample(mname(b) + " read " + hex(alt, 120) + " = " + show(d.m));
  }
}

// ------------------------------------------------------------------ mutation
std::string mutate(std::string s, const MsgDesc &d, Rng &r) {
  int n = 1 + (int)r.below(3);
  for (int k = 0; k < n; ++k) {
    size_t at = r.below(s.size() + 1);
    switch (r.below(14)) {
    case 0: if (!s.empty()) s[at % s.size()] ^= (char)(1 << r.below(8)); break;
    case 1: if (!s.empty()) s[at % s.size()] = (char)r.next(); break;
    case 2: if (!s.empty()) s.erase(at % s.size(), 1 + r.below(3)); break;
    case 3: { std::string x; for (int i = 1 + (int)r.below(4); i > 0; --i) x += (char)r.next(); s.insert(at, x); break; }
    case 4: s.resize(at); break; // truncation
    case 5: { std::string x; gen_unknown(x, r, d); s.insert(at, x); break; }
    case 6: { std::string x; put_varint(x, r.next() >> r.below(64), (int)r.below(8)); s.insert(at, x); break; }
    case 7: { // a record of a known field with an arbitrary wire type and payload
      if (!d.nfields) break;
      const FieldDesc &f = d.fields[r.below((uint64_t)d.nfields)]; std::string x;
      put_tag(x, f.number, (int)r.below(8), r.chance(1, 6) ? (int)r.below(6) : 0);
      for (int i = (int)r.below(12); i > 0; --i) x += r.chance(1, 3) ? (char)r.next() : (char)r.below(16);
      s.insert(r.chance(1, 2) ? s.size() : at, x); break;
    }
    case 8: { // a length far beyond the input
      static const uint64_t lens[] = {0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7ffffff0ull, 0xffffffffffffffffull, 1u << 20, 1u << 28, 0xfffffff0ull};
      uint32_t num = d.nfields ? d.fields[r.below((uint64_t)d.nfields)].number : 1;
      std::string x; put_tag(x, num, LEN); put_varint(x, lens[r.below(std::size(lens))]);
      if (r.chance(1, 2)) s += x; else s.insert(at, x); break;
    }
    case 9: { std::string x; put_varint(x, 0xffffffffffffffffull); x.back() = (char)(r.chance(1, 2) ? 0x81 : 0x02); s.insert(at, x); if (r.chance(1, 2)) s.insert(at + x.size(), 1, (char)0); break; }
    case 10: if (!s.empty()) { int v = (int)(unsigned char)s[at % s.size()]; s[at % s.size()] = (char)(v + (r.chance(1, 2) ? 1 : -1)); } break;
    case 11: { static const char g[] = {0x03, 0x04, 0x0b, 0x0c, 0x13, 0x14, 0x23, 0x24, 0x00, 0x06, 0x07}; s.insert(at, 1, g[r.below(std::size(g))]); break; }
    case 12: if (s.size() > 2) { size_t a = r.below(s.size()), l = 1 + r.below(std::min<size_t>(s.size() - a, 40)); std::string x = s.substr(a, l); s.insert(at, x); } break;
    default: { // one of the fields' tags with the last byte missing or with garbage
      if (!d.nfields) break;
      std::string x; put_tag(x, d.fields[r.below((uint64_t)d.nfields)].number, LEN); x += (char)r.below(20); s += x; break;
    }
    }
    if (s.size() > 6000) s.resize(6000);
  }
  return s;
}
std::string hostile(const Box &b, Rng &r) {
  Msg m = gen_for(b, r); std::string s;
  switch (r.below(8)) {
  case 0: { for (int i = (int)r.below(40); i > 0; --i) s += (char)r.next(); return s; }
  case 1: { // random small records
    const MsgDesc &d = b.desc();
    for (int i = 1 + (int)r.below(6); i > 0; --i) {
      uint32_t num = d.nfields && r.chance(5, 6) ? d.fields[r.below((uint64_t)d.nfields)].number : (uint32_t)r.below(64);
      put_tag(s, num, (int)r.below(6));
      for (int k = (int)r.below(6); k > 0; --k) s += (char)r.below(r.chance(1, 4) ? 256 : 8);
    }
    return s;
  }
  case 2: return mutate(encode(m), b.desc(), r);
  default: { AltOpts a; GenOpts go; alt_encode(m, r, a, go, s); return r.chance(1, 10) ? s : mutate(s, b.desc(), r); }
  }
}

// ------------------------------------------------------------------ P03
void p03_one(const Box &b, const std::string &s, bool allkinds) {
  Decoded d = decode(b.desc(), s, dopts(b));
  mon::count(std::string("inputs:") + vname(d.v));
  static const ReadKind kinds[] = {R_SPAN, R_PADDED};
  for (ReadKind k : kinds) {
    if (!allkinds && k != R_SPAN) break;
    g_max_alloc = 0;
    auto o = b.make();
    int ec = o->read(s, k);
    size_t big = g_max_alloc;
    if (ec == -77) return bad(b, "input-modified", "parsing changed the input " + hex(s));
    if (big > (b.drops ? 1u << 21 : 16384) + s.size() * 2048) /* a dynamic message keeps the arena of its earlier contents, which grows geometrically */  return bad(b, "allocation", "an allocation of " + std::to_string(big) + " bytes for an input of " + std::to_string(s.size()) + " bytes " + hex(s));
    if (d.v != EITHER && (ec == 0) != (d.v == ACCEPT)) return bad(b, d.v == ACCEPT ? "rejected" : "accepted", std::string("reference says ") + vname(d.v) + ", status " + std::to_string(ec) + " for " + hex(s));
    Msg got = cget(*o);
    if (d.v == ACCEPT && !(got == d.m)) return bad(b, "value", "parsing " + hex(s) + ": " + diff(d.m, got));
    if (ec) { // the destination stays usable
      mon::count("rejected");
      Rng r2(s.size() + 99); Msg m = gen(b.desc(), r2, GenOpts{}); std::string enc = encode(m);
      auto c = o->clone(); (void)c->eq(*o); std::string out; (void)o->write(out, W_VECTOR);
      if (o->read(enc, R_SPAN) || !(cget(*o) == m)) return bad(b, "after-error", "a message that failed to parse " + hex(s) + " cannot be reused: " + show(cget(*o)));
    } else mon::count("accepted");
  }
}
void p03(const Box &b, Rng &r) {
  std::string s = hostile(b, r);
  mon::begin(("p03 " + mname(b)).c_str(), s);
  mon::seen(mname(b), s);
  p03_one(b, s, true);
  if (s.size() < 60 && r.chance(1, 4)) for (size_t n = 0; n < s.size(); ++n) { mon::begin(("p03 prefix " + mname(b)).c_str(), std::string_view(s).substr(0, n)); p03_one(b, s.substr(0, n), false); mon::count("prefixes"); }
  if (mon::samples.size() < 6 && r.chance(1, 100)) mon::sample(mname(b) + " " + hex(s, 120) + " " + vname(decode(b.desc(), s, dopts(b)).v));
}

// ------------------------------------------------------------------ P04
std::vector<std::string> cut(const std::string &s, const std::vector<size_t> &at) {
  std::vector<std::string> v; size_t p = 0;
  for (size_t a : at) { v.push_back(s.substr(p, a - p)); p = a; }
  v.push_back(s.substr(p)); return v;
}
std::string seg_str(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += (o.empty() ? "" : "|") + hex(x); return o; }
void p04_seg(const Box &b, const std::string &s, const std::vector<std::string> &parts, int ec0, const Msg &m0) {
  auto o = b.make();
  int ec = o->read_chunks(parts, 0);
  mon::count("segmentations"); mon::count("segments", parts.size());
  if (ec == -77) return bad(b, "input-modified", "parsing changed the input " + seg_str(parts));
  if ((ec == 0) != (ec0 == 0)) return bad(b, "status", "contiguous status " + std::to_string(ec0) + ", segmented " + std::to_string(ec) + " for " + seg_str(parts));
  if (ec == 0) {
    Msg m = cget(*o);
    if (!(m == m0)) return bad(b, "value", "segmented parse of " + seg_str(parts) + " differs at " + diff(m0, m) + " from " + show(m0));
  }
  (void)s;
}
void p04(const Box &b, Rng &r) {
  std::string s;
  if (r.chance(1, 3)) s = hostile(b, r);
  else { Msg m = gen_for(b, r); AltOpts a; GenOpts go; alt_encode(m, r, a, go, s); if (r.chance(1, 6)) s = mutate(s, b.desc(), r); }
  if (s.size() > 3000) s.resize(3000);
  mon::begin(("p04 " + mname(b)).c_str(), s);
  mon::seen(mname(b), s);
  auto o = b.make(); int ec0 = o->read(s, R_SPAN);
  Msg m0 = cget(*o);
  { // the contiguous answer itself is the one the bytes have (so that a common error is not agreed upon)
    Decoded d = decode(b.desc(), s, dopts(b));
    if (d.v != EITHER && (ec0 == 0) != (d.v == ACCEPT)) return bad(b, "contiguous", "status " + std::to_string(ec0) + " for " + hex(s));
    if (d.v == ACCEPT && !(m0 == d.m)) return bad(b, "contiguous", "value of " + hex(s));
  }
  { auto p = b.make(); int ec = p->read(s, R_PADDED);
    if ((ec == 0) != (ec0 == 0)) bad(b, "padded-status", "contiguous status " + std::to_string(ec0) + ", padded " + std::to_string(ec) + " for " + hex(s));
    else if (ec == 0 && !(cget(*p) == m0)) bad(b, "padded-value", "padded parse of " + hex(s));
    mon::count("padded"); }
  // one-byte segments, with empty ones in between
  { std::vector<std::string> parts; for (char c : s) { parts.emplace_back(1, c); if (r.chance(1, 8)) parts.emplace_back(); } if (parts.empty()) parts.emplace_back(); mon::begin(("p04 bytes " + mname(b)).c_str(), s); p04_seg(b, s, parts, ec0, m0); }
  for (int k = 0; k < 4; ++k) { // random segments
    std::vector<size_t> at; size_t maxseg = k == 0 ? 3 : k == 1 ? 20 : k == 2 ? 60 : s.size() / 2 + 1;
    for (size_t p = 0; p < s.size();) { size_t n = r.below(maxseg + 1); if (r.chance(1, 10)) n = 0; if (r.chance(1, 6)) n = 15 + r.below(4); p += n; if (p >= s.size()) break; at.push_back(p); }
    mon::begin(("p04 random cuts " + mname(b)).c_str(), s);
    p04_seg(b, s, cut(s, at), ec0, m0);
  }
  size_t step = s.size() <= 40 ? 1 : 1 + r.below(s.size() / 10 + 1); // every single cut of short inputs
  for (size_t p = r.below(step); p <= s.size(); p += step) { mon::begin(("p04 cut " + std::to_string(p) + " " + mname(b)).c_str(), s); p04_seg(b, s, cut(s, {p}), ec0, m0); }
  for (int k = 0; k < 6 && s.size() > 2; ++k) { size_t p = r.below(s.size()), q = p + r.below(std::min<size_t>(s.size() - p, 20)); mon::begin(("p04 two cuts " + mname(b)).c_str(), s); p04_seg(b, s, cut(s, {p, q}), ec0, m0); }
  if (mon::samples.size() < 6 && r.chance(1, 60)) mon::sample(mname(b) + " " + hex(s, 100) + (ec0 ? " rejected" : " accepted") + " in every segmentation tried");
}

// ------------------------------------------------------------------ P05
void p05(const Box &b, Rng &r) {
  Msg m = gen_for(b, r);
  if (r.chance(1, 12)) { // a large payload
    for (int i = 0; i < m.d->nfields; ++i) if (m.d->fields[i].type == Type::BYTES && m.d->fields[i].kind == Kind::ONE && m.d->fields[i].oneof < 0) { Val v; v.s.assign(20000 + r.below(90000), 'x'); for (auto &c : v.s) c = (char)r.next(); m.f[i] = {v}; break; }
  }
  auto o = b.make(); o->set(m);
  std::string ref_bytes;
  mon::begin(("p05 " + mname(b)).c_str(), std::string_view(encode(m)).substr(0, 1500));
  mon::seen(mname(b), encode(m)); note_shape(m);
  int ec = o->write(ref_bytes, W_VECTOR);
  if (ec) return bad(b, "vector-status", "status " + std::to_string(ec));
  if (normalized(*m.d, ref_bytes) != normalized(*m.d, encode(m))) return bad(b, "vector-bytes", hex(ref_bytes) + " is not an encoding of " + show(m));
  auto same = [&](const char *what, int e, const std::string &got) {
    mon::count(std::string("mode:") + what);
    if (e) bad(b, std::string(what) + "-status", "status " + std::to_string(e) + " writing " + show(m));
    else if (got != ref_bytes) bad(b, std::string(what) + "-bytes", std::string(what) + " gave " + hex(got) + " instead of " + hex(ref_bytes));
  };
  { std::string s(r.below(50), 'q'); int e = o->write(s, W_STRING); same("string", e, s); }
  { std::string s; int e = o->write(s, W_RETURN); same("returned", e, s); }
  { std::string s; int e = o->write(s, W_ARENA); same("arena", e, s); }
  { std::string pre; for (size_t i = r.below(40); i > 0; --i) pre += (char)r.next(); std::string s = pre; int e = o->write(s, W_APPEND);
    if (s.compare(0, pre.size(), pre) != 0) bad(b, "append-prefix", "appending changed the existing data"); else same("append", e, s.substr(pre.size())); }
  { std::string s(ref_bytes.size(), 0); int e = o->write(s, W_SPAN); same("span", e, s); }
  if (!ref_bytes.empty()) { size_t n = r.chance(1, 2) ? ref_bytes.size() - 1 : r.below(ref_bytes.size()); std::string s(n, 0); int e = o->write(s, W_SPAN); mon::count("too-small spans"); if (e == 0) bad(b, "small-span", "writing " + std::to_string(ref_bytes.size()) + " bytes into a buffer of " + std::to_string(n) + " succeeded"); }
  { size_t extra = 1 + r.below(30); std::string s(ref_bytes.size() + extra, 0); int e = o->write(s, W_SPAN); // a larger fixed buffer
    if (e == 0 && s.compare(0, ref_bytes.size(), ref_bytes) != 0) bad(b, "large-span-bytes", "prefix differs");
    if (e == 0) for (size_t i = ref_bytes.size(); i < s.size(); ++i) if (s[i] != (char)0xEE) { bad(b, "large-span-tail", "bytes after the message were written"); break; } }
  static const WriteKind sinks[] = {W_SINK_CONT, W_SINK_ADAPT, W_SINK_CHUNK, W_SINK_DEFAULT};
  static const char *names[] = {"sink-contiguous", "sink-adaptive", "sink-chunked", "sink-default"};
  size_t total = ref_bytes.size();
  for (int k = 0; k < 4; ++k) for (int t = 0; t < 3; ++t) {
    SinkSpec sp; 
    bool single = sinks[k] == W_SINK_CONT;
    if (single || t == 2) sp.sizes = {std::max<size_t>(1, total + (t ? r.below(40) : 0))}; // one chunk suffices
    else for (int i = 1 + (int)r.below(4); i > 0; --i) sp.sizes.push_back(1 + r.below(t == 0 ? 9 : 300));
    sp.cap = *std::min_element(sp.sizes.begin(), sp.sizes.end());
    if (!single && t != 2) sp.sizes = {sp.sizes[0]}, sp.cap = sp.sizes[0];
    if (!single && t == 1 && r.chance(1, 2)) { sp.sizes.clear(); for (int i = 0; i < 3; ++i) sp.sizes.push_back(1 + r.below(50)); sp.cap = *std::min_element(sp.sizes.begin(), sp.sizes.end()); }
    SinkLog log; std::string s;
    mon::begin((std::string("p05 ") + names[k] + " chunk=" + std::to_string(sp.sizes[0]) + " " + mname(b)).c_str(), std::string_view(encode(m)).substr(0, 1500));
    int e = o->write(s, sinks[k], sp, &log);
    mon::count("sink chunks", log.chunks.size());
    if (e == 0 && log.set_calls != 1) bad(b, std::string(names[k]) + "-announce", "set_message_size called " + std::to_string(log.set_calls) + " times");
    if (e == 0 && log.announced != total) bad(b, std::string(names[k]) + "-size", "announced " + std::to_string(log.announced) + " wrote " + std::to_string(total));
    if (e == 0 && s.size() >= total) { for (size_t i = total; i < s.size(); ++i) if (s[i] != (char)0xEE) { bad(b, std::string(names[k]) + "-tail", "bytes after the message were written"); break; } s.resize(total); }
    if (e == 0 && s.size() < total) bad(b, std::string(names[k]) + "-short", "only " + std::to_string(s.size()) + " bytes were requested from the sink");
    same(names[k], e, s);
    if (mon::fails.size()) return;
  }
  if (total > 0) { // sinks that run out of room: no success, no write past the end (address sanitizer), no endless loop
    for (int k = 1; k < 4; ++k) { // (a contiguous sink must provide the room it is asked for: that is its contract)
      SinkSpec sp; size_t n = r.below(total);
      sp.sizes = {n, 0}; sp.cap = n; sp.sticky = true;
      if (n == 0) sp.sizes = {0};
      SinkLog log; std::string s; 
      mon::begin((std::string("p05 exhausted ") + names[k] + " first=" + std::to_string(n) + " " + mname(b)).c_str(), std::string_view(encode(m)).substr(0, 1500));
      int e = o->write(s, sinks[k], sp, &log);
      mon::count("exhausted sinks");
      // after n bytes only empty chunks come, so the message cannot have been written
      if (e == 0) bad(b, std::string(names[k]) + "-exhausted", "a sink that gave " + std::to_string(n) + " of " + std::to_string(total) + " bytes and then an empty chunk: success reported");
    }
  }
  if (mon::samples.size() < 6 && r.chance(1, 30)) mon::sample(mname(b) + " size " + std::to_string(total) + " identical through every mode: " + hex(ref_bytes, 80));
}

// ------------------------------------------------------------------ P06
void p06(uint64_t c, Rng &r) {
  static std::vector<int> ids; if (ids.empty()) { std::map<int, int> n; for (auto &b : boxes()) if (b.traits.find('@') == std::string::npos) n[b.id]++; for (auto &[i, k] : n) if (k > 1) ids.push_back(i); }
  int id = ids[(size_t)((c * (uint64_t)mon::g.nshards + (uint64_t)mon::g.shard) % ids.size())];
  std::vector<const Box *> bs; for (auto &b : boxes()) if (b.id == id && b.traits.find('@') == std::string::npos) bs.push_back(&b);
  std::string s;
  if (r.chance(1, 3)) s = hostile(*bs[0], r);
  else { Msg m = gen_for(*bs[0], r); AltOpts a; GenOpts go; if (r.chance(1, 3)) s = encode(m); else alt_encode(m, r, a, go, s); }
  mon::begin((std::string("p06 ") + bs[0]->desc().name).c_str(), s);
  mon::seen(bs[0]->desc().name, s);
  struct R { int ec; Msg m; std::unique_ptr<Obj> o; std::string out; };
  std::vector<R> rs;
  for (auto *b : bs) { R x; x.o = b->make(); x.ec = x.o->read(s, R_SPAN); if (!x.ec) { x.m = cget(*x.o); int e = x.o->write(x.out, W_VECTOR); if (e) bad(*b, "write-status", "status " + std::to_string(e)); } rs.push_back(std::move(x)); mon::count("parses:" + b->traits); }
  auto strip = [](auto &&self, Msg &m) -> void { m.unk.clear(); for (auto &[i, v] : m.f) for (auto &x : v) if (x.m) self(self, *x.m); };
  Decoded d0 = decode(*&bs[0]->desc(), s, dopts(*bs[0]));
  Msg x0; if (!rs[0].ec) { x0 = cget(*rs[0].o); strip(strip, x0); }
  for (size_t i = 0; i < rs.size(); ++i) {
    if (d0.v != EITHER && (rs[i].ec == 0) != (d0.v == ACCEPT)) return bad(*bs[i], "status", "status " + std::to_string(rs[i].ec) + " for " + hex(s));
    if ((rs[i].ec == 0) != (rs[0].ec == 0)) return bad(*bs[i], "disagree-status", bs[0]->traits + " status " + std::to_string(rs[0].ec) + ", " + bs[i]->traits + " " + std::to_string(rs[i].ec) + " for " + hex(s));
    if (rs[i].ec) continue;
    Msg again = cget(*rs[i].o); // still valid now that other objects have come and gone
    if (!(again == rs[i].m)) return bad(*bs[i], "unstable", "contents changed while other messages were parsed: " + diff(rs[i].m, again));
    Msg x = x0, y = cget(*rs[i].o); strip(strip, y); // (sub-messages are shared between copies)
    if (!(x == y)) return bad(*bs[i], "disagree-value", bs[0]->traits + " and " + bs[i]->traits + " differ at " + diff(x, y) + " for " + hex(s));
    if (d0.v == ACCEPT) { Decoded di = decode(bs[i]->desc(), s, dopts(*bs[i])); if (!(rs[i].m == di.m)) return bad(*bs[i], "value", "differs at " + diff(di.m, rs[i].m) + " for " + hex(s)); }
    Decoded back = decode(bs[i]->desc(), rs[i].out, dopts(*bs[i]));
    if (back.v != EITHER && (back.v != ACCEPT || !(back.m == rs[i].m))) return bad(*bs[i], "write-value", "re-encoding " + hex(rs[i].out) + " of " + hex(s) + " has another value");
    mon::count("agreements");
    // copies survive their source
    auto cl = rs[i].o->clone(); rs[i].o.reset(); Msg z = cget(*cl); if (!(z == rs[i].m)) return bad(*bs[i], "copy", "a copy differs at " + diff(rs[i].m, z));
    rs[i].o = std::move(cl);
  }
  if (mon::samples.size() < 6 && r.chance(1, 40)) mon::sample(std::string(bs[0]->desc().name) + " " + hex(s, 120) + (rs[0].ec ? " rejected by all" : " same value in all"));
}

bool ext_tree(int id) { // whether a message of this type can hold extensions, at any depth
  static std::map<int, std::set<int>> reach; auto &s = reach[id];
  if (s.empty()) { std::vector<int> todo{id}; s.insert(id); while (!todo.empty()) { int x = todo.back(); todo.pop_back(); for (int i = 0; i < g_msgs[x].nfields; ++i) { int y = g_msgs[x].fields[i].msg; if (y >= 0 && s.insert(y).second) todo.push_back(y); } } }
  for (int x : s) if (!g_msgs[x].ext_ranges.empty()) return true;
  return false;
}
// ------------------------------------------------------------------ P07 (messages; extensions have a driver of their own)
void p07(const Box &b, Rng &r) {
  Msg m = gen_for(b, r);
  AltOpts a; GenOpts go; a.unknown = true; a.dup = r.chance(1, 2); a.overlong = r.chance(1, 2);
  std::string s; alt_encode(m, r, a, go, s);
  for (int k = (int)r.below(4); k > 0; --k) gen_unknown(s, r, b.desc());
  mon::begin(("p07 " + mname(b)).c_str(), s);
  Decoded d = decode(b.desc(), s, dopts(b));
  if (d.v != ACCEPT) { mon::count("skipped"); return; }
  mon::seen(mname(b), s);
  auto o = b.make(); int ec = o->read(s, R_SPAN);
  if (ec) return bad(b, "status", "status " + std::to_string(ec) + " for " + hex(s));
  Msg got = cget(*o);
  if (!(got == d.m)) return bad(b, "value", "reading " + hex(s) + " differs at " + diff(d.m, got));
  std::string out; ec = o->write(out, W_VECTOR);
  if (ec) return bad(b, "write-status", "status " + std::to_string(ec));
  // what was kept is written byte for byte: canonical records of the output equal those of the value
  if (normalized(*d.m.d, out) != normalized(*d.m.d, encode(d.m))) { // overlong input records are kept as they came, so compare values next
    Decoded back = decode(b.desc(), out, dopts(b));
    if (back.v != ACCEPT || !(back.m == d.m)) return bad(b, "rewrite", "writing the message read from " + hex(s) + " gave " + hex(out));
  }
  // byte for byte, at the root: the unknown records of the input in their original encoding appear in the output
  size_t kept = 0;
  { Cur c{(const unsigned char *)s.data(), (const unsigned char *)s.data() + s.size()}; std::string all; std::map<uint32_t, std::string> by;
    bool ok = true;
    while (c.p != c.e) { const auto *st = c.p; uint32_t n; int w; std::string rec; if (!c.tag(n, w) || !skip(c, n, w, rec, 1 << 20)) { ok = false; break; } if (!find_field(b.desc(), n)) { std::string raw((const char *)st, (size_t)(c.p - st)); all += raw; by[n] += raw; ++kept; } }
    if (ok && kept && keeps(b.desc(), dopts(b))) {
      bool grouped = !b.desc().ext_ranges.empty() && !b.keep_all;
      if (b.desc().ext_ranges.empty()) { bool closed_unknown = false; for (int i = 0; i < b.desc().nfields; ++i) closed_unknown |= b.desc().fields[i].closed || b.desc().fields[i].kind == Kind::MAP;
        if (!closed_unknown && out.find(all) == std::string::npos) return bad(b, "bytes", "unknown records " + hex(all) + " are not in the output " + hex(out) + " as they came"); }
      else for (auto &[n, raw] : by) if (out.find(raw) == std::string::npos) return bad(b, "bytes", "unknown records " + hex(raw) + " of field " + std::to_string(n) + " are not in the output " + hex(out));
      (void)grouped;
      mon::count("kept-root-records", kept);
    } else if (ok && kept) { mon::count("dropped-root-records", kept); }
  }
  if (!d.m.unk.empty()) mon::count("messages-with-root-unknowns");
  // a second cycle through a fresh object changes nothing more
  auto o2 = b.make(); std::string out2;
  if (o2->read(out, R_SPAN) || o2->write(out2, W_VECTOR)) return bad(b, "second-cycle", "the output cannot be read and written again");
  bool same2 = out == out2;
  if (!same2 && ext_tree(b.id)) { Decoded e1 = decode(b.desc(), out, dopts(b)), e2 = decode(b.desc(), out2, dopts(b)); same2 = out.size() == out2.size() && e1.v == ACCEPT && e2.v == ACCEPT && e1.m == e2.m; } // extensions come in the order of the map that holds them
  else if (!same2 && multi_map(d.m)) same2 = normalized(*d.m.d, out) == normalized(*d.m.d, out2);
  if (!same2) return bad(b, "second-cycle-bytes", hex(out) + " became " + hex(out2));
  if (mon::samples.size() < 6 && kept && r.chance(1, 30)) mon::sample(mname(b) + " " + hex(s, 100) + " -> " + hex(out, 100));
}

// ------------------------------------------------------------------ P08
void p08(const Box &b, Rng &r) {
  GenOpts o1 = pick_opts(r), o2 = pick_opts(r);
  if (r.chance(1, 3)) { o1.fill_num = o2.fill_num = 3; o1.fill_den = o2.fill_den = 4; }
  Msg x = gen(b.desc(), r, o1), y = gen(b.desc(), r, o2);
  // unknown fields as well: values come through the parser
  std::string ea, eb; AltOpts a; a.overlong = a.dup = a.split = a.repack = a.reorder = a.dup_keys = false; a.unknown = b.keep_all || !b.desc().ext_ranges.empty(); a.unknown_enum = false; GenOpts go;
  alt_encode(x, r, a, go, ea); alt_encode(y, r, a, go, eb);
  mon::begin(("p08 " + mname(b)).c_str(), ea + "/" + eb);
  mon::seen(mname(b) + ea, eb);
  Decoded want = decode(b.desc(), ea + eb, dopts(b)), da = decode(b.desc(), ea, dopts(b)), db = decode(b.desc(), eb, dopts(b));
  if (want.v != ACCEPT) { mon::count("skipped"); return; }
  // required fields are plain members and always present, so a merge overwrites them: give both sides a value
  for (int mv = 0; mv < 2; ++mv) {
    auto dst = b.make(), src = b.make(), cat = b.make();
    if (dst->read(ea, R_SPAN) || src->read(eb, R_SPAN) || cat->read(ea + eb, R_SPAN)) return bad(b, "read", "cannot parse " + hex(ea) + " or " + hex(eb));
    dst->merge(*src, mv == 1);
    Msg got = cget(*dst);
    mon::count(mv ? "moves" : "copies");
    if (!(got == want.m)) return bad(b, mv ? "move-value" : "copy-value", "merging " + show(db.m) + " into " + show(da.m) + ": expected " + show(want.m) + " got " + show(got) + "; differs at " + diff(want.m, got));
    if (!mv) { Msg s2 = cget(*src); if (!(s2 == db.m)) return bad(b, "source", "merging changed the source at " + diff(db.m, s2)); }
    Msg c = cget(*cat); if (!(c == want.m)) return bad(b, "concat", "parsing the concatenation differs at " + diff(want.m, c));
    std::string out; if (dst->write(out, W_VECTOR)) return bad(b, "write", "the merged message cannot be written");
    src.reset(); // the destination does not depend on a copied or moved source
    Msg again = cget(*dst); if (!(again == want.m)) return bad(b, "dangling", "the destination changed after the source went away");
  }
  { // merging with itself's copy, and merging nothing
    auto d1 = b.make(), e1 = b.make();
    if (!d1->read(ea, R_SPAN)) {
      bool req = false; for (int i = 0; i < b.desc().nfields; ++i) req |= b.desc().fields[i].presence == Presence::REQUIRED;
      if (!req) { d1->merge(*e1, false); if (!(cget(*d1) == da.m)) return bad(b, "empty-source", "merging an empty message changed " + diff(da.m, cget(*d1))); }
      auto d2 = b.make(), s2 = b.make(); (void)s2->read(ea, R_SPAN);
      if (!req) { d2->merge(*s2, false); if (!(cget(*d2) == da.m)) return bad(b, "empty-destination", "merging into an empty message gives " + diff(da.m, cget(*d2))); }
    }
  }
  if (mon::samples.size() < 6 && r.chance(1, 30)) mon::sample(mname(b) + " " + show(da.m) + " + " + show(db.m));
}

// ------------------------------------------------------------------ P09
// chains of nested messages; `how` picks the construct at each level
Msg chain(const MsgDesc &d, int depth, Rng &r, int how) {
  Msg m; m.d = &d; Msg *cur = &m;
  for (int i = 0; i < depth; ++i) {
    std::vector<int> cand; for (int k = 0; k < cur->d->nfields; ++k) if (is_msg(cur->d->fields[k])) { const FieldDesc &f = cur->d->fields[k]; const MsgDesc &s = sub(f); bool rec = false; // only fields that lead on
      for (int q = 0; q < s.nfields; ++q) rec |= is_msg(s.fields[q]); if (rec || i == depth - 1) cand.push_back(k); }
    if (cand.empty()) break;
    int k = how >= 0 ? cand[(size_t)how % cand.size()] : cand[r.below(cand.size())];
    const FieldDesc &f = cur->d->fields[k]; Val v; v.m = std::make_shared<Msg>(); v.m->d = &sub(f);
    Msg *next = v.m.get();
    if (f.kind == Kind::MAP) { Val key; key.u = 1; key.s = "k"; if (is_str(sub(f).fields[0])) key.u = 0; else key.s.clear(); next->f[0] = {key}; Val inner; if (is_msg(sub(f).fields[1])) { inner.m = std::make_shared<Msg>(); inner.m->d = &sub(sub(f).fields[1]); } else if (!is_str(sub(f).fields[1])) inner.u = 1; next->f[1] = {inner}; }
    clear_oneof(*cur, f, k);
    cur->f[k] = {v};
    cur = cur->f[k][0].m.get();
    if (f.kind == Kind::MAP) { cur = cur->f[1][0].m.get(); ++i; if (!cur) break; }
  }
  return m;
}
int depth_of(const Msg &m) { int d = 0; for (auto &[i, v] : m.f) for (auto &x : v) if (x.m) d = std::max(d, 1 + depth_of(*x.m)); return d; }
int box_limit(const Box &b) { auto p = b.traits.find('@'); return p == std::string::npos ? 100 : std::atoi(b.traits.c_str() + p + 1); }
void p09(const Box &b, Rng &r, uint64_t c) {
  int limit = box_limit(b);
  int how = (int)r.below(8) - 2; int depth = std::max(0, limit + (int)r.below(7) - 3);
  if (c % 7 == 0) depth = (int)r.below((uint64_t)(2 * limit + 20));
  Msg m = chain(b.desc(), depth, r, how); canon(m);
  int real = depth_of(m);
  std::string enc = encode(m);
  mon::begin(("p09 depth " + std::to_string(real) + " limit " + std::to_string(limit) + " " + mname(b)).c_str(), std::string_view(enc).substr(0, 2000));
  mon::seen(mname(b), enc);
  bool deep = real > limit;
  mon::count(real == limit ? "at-limit" : real == limit + 1 ? "one-past-limit" : deep ? "past-limit" : "within-limit");
  DecodeOpts o = dopts(b); o.limit = limit;
  Decoded d = decode(b.desc(), enc, o);
  if ((d.v == ACCEPT) == deep) { mon::count("reference-disagrees"); return; }
  auto ob = b.make(); int ec = ob->read(enc, R_SPAN);
  if ((ec == 0) == deep) bad(b, deep ? "read-deep" : "read-shallow", "nesting depth " + std::to_string(real) + " with limit " + std::to_string(limit) + ": read status " + std::to_string(ec) + " " + hex(enc, 200));
  if (!deep && ec == 0 && !(cget(*ob) == m)) bad(b, "value", "depth " + std::to_string(real));
  { auto oc = b.make(); std::vector<std::string> parts; for (size_t p = 0; p < enc.size(); p += 7) parts.push_back(enc.substr(p, 7)); if (parts.empty()) parts.emplace_back();
    int e2 = oc->read_chunks(parts, 0); if ((e2 == 0) == deep) bad(b, deep ? "chunked-read-deep" : "chunked-read-shallow", "depth " + std::to_string(real) + " limit " + std::to_string(limit) + " status " + std::to_string(e2)); }
  auto w = b.make(); w->set(m); std::string out; ec = w->write(out, W_VECTOR);
  if ((ec == 0) == deep) bad(b, deep ? "write-deep" : "write-shallow", "nesting depth " + std::to_string(real) + " with limit " + std::to_string(limit) + ": write status " + std::to_string(ec));
  if (!deep && ec == 0 && normalized(*m.d, out) != normalized(*m.d, enc)) bad(b, "bytes", "depth " + std::to_string(real));
  // groups inside unknown fields
  if (c % 3 == 0) {
    int gd = c % 2 ? std::max(1, limit + (int)r.below(7) - 3) : (int)r.below(5000);
    std::string s; for (int i = 0; i < gd; ++i) put_tag(s, 1000, SG); for (int i = 0; i < gd; ++i) put_tag(s, 1000, EG);
    mon::begin(("p09 unknown groups " + std::to_string(gd) + " limit " + std::to_string(limit) + " " + mname(b)).c_str(), std::string_view(s).substr(0, 2000));
    auto u = b.make(); int e = u->read(s, R_SPAN); mon::count("unknown-groups");
    if (e == 0 && gd > limit + 1) bad(b, "unknown-group-deep", "groups nested " + std::to_string(gd) + " deep inside unknown fields accepted, limit " + std::to_string(limit));
    if (e != 0 && gd <= limit) bad(b, "unknown-group-shallow", "groups nested " + std::to_string(gd) + " deep inside unknown fields rejected, limit " + std::to_string(limit));
    // the same below the root: the levels add up
    Msg c2 = chain(b.desc(), limit / 2, r, -1); int d2 = depth_of(c2);
    if (d2 > 0) {
      Msg *p = &c2; while (true) { Msg *n = nullptr; for (auto &[i, v] : p->f) for (auto &x : v) if (x.m) n = x.m.get(); if (!n) break; p = n; }
      if (!p->d->map_entry) for (int g2 : {limit - d2 - 2, limit - d2 + 3}) if (g2 > 0) {
        std::string s2; for (int i = 0; i < g2; ++i) put_tag(s2, 1000, SG); for (int i = 0; i < g2; ++i) put_tag(s2, 1000, EG);
        p->unk = s2; std::string e3 = encode(c2);
        mon::begin(("p09 unknown groups below the root " + mname(b)).c_str(), std::string_view(e3).substr(0, 2000));
        auto u3 = b.make(); int st = u3->read(e3, R_SPAN); mon::count("unknown-groups-below-root");
        if (g2 == limit - d2 - 2 && st != 0) bad(b, "nested-unknown-group-shallow", std::to_string(g2) + " groups at depth " + std::to_string(d2) + ", limit " + std::to_string(limit) + ": status " + std::to_string(st));
        if (g2 == limit - d2 + 3 && st == 0) bad(b, "nested-unknown-group-deep", std::to_string(g2) + " groups at depth " + std::to_string(d2) + ", limit " + std::to_string(limit) + ": accepted");
      }
    }
  }
  if (c % 40 == 0) { // far too deep: no crash, an error
    int dd = 20000; std::string s; int kind = (int)r.below(3);
    const MsgDesc &D = b.desc(); const FieldDesc *lp = nullptr, *gr = nullptr;
    for (int i = 0; i < D.nfields; ++i) { const FieldDesc &f = D.fields[i]; if (is_msg(f) && &sub(f) == &D && !f.delimited) lp = lp ? lp : &f; if (is_msg(f) && f.delimited) gr = gr ? gr : &f; }
    if (kind == 0 && lp) { std::vector<uint64_t> lens; uint64_t len = 0; for (int i = 0; i < dd; ++i) { std::string t; put_tag(t, lp->number, LEN); put_varint(t, len); len += t.size(); lens.push_back(len); } len = 0; std::vector<std::string> parts; for (int i = 0; i < dd; ++i) { std::string t; put_tag(t, lp->number, LEN); put_varint(t, len); len += t.size(); parts.push_back(t); } for (size_t i = parts.size(); i > 0; --i) s += parts[i - 1]; }
    else if (kind == 1 && gr) { for (int i = 0; i < dd; ++i) put_tag(s, gr->number, SG); if (r.chance(1, 2)) for (int i = 0; i < dd; ++i) put_tag(s, gr->number, EG); }
    else { for (int i = 0; i < 200000; ++i) put_tag(s, 77, SG); if (r.chance(1, 2)) for (int i = 0; i < 200000; ++i) put_tag(s, 77, EG); }
    mon::begin(("p09 far too deep " + mname(b)).c_str(), std::string_view(s).substr(0, 200));
    auto u = b.make(); int e = u->read(s, R_SPAN); mon::count("far-too-deep");
    if (e == 0) bad(b, "far-too-deep", "accepted");
  }
  if (mon::samples.size() < 6 && r.chance(1, 30)) mon::sample(mname(b) + " nesting depth " + std::to_string(real) + ", limit " + std::to_string(limit) + (deep ? ": rejected both ways" : ": accepted both ways"));
}

// ------------------------------------------------------------------ P10
#ifdef VP_UTF8
std::string bad_utf8(Rng &r) {
  static const char *seqs[] = {"\x80", "\xbf", "\xc0\x80", "\xc1\xbf", "\xc2", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xe2\x82", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf4\x90\x80\x80", "\xf5\x80\x80\x80", "\xff", "\xfe", "\xf0\x9f\x98", "\xe2\x28\xa1", "\xc3\x28"};
  std::string s; size_t n = r.below(40), at = r.below(n + 1);
  for (size_t i = 0; i < n; ++i) { if (i == at) s += seqs[r.below(std::size(seqs))]; s += r.chance(1, 10) ? std::string("\xc3\xa9") : std::string(1, (char)(32 + r.below(95))); }
  if (at >= n) s += seqs[r.below(std::size(seqs))];
  if (valid_utf8(s)) s += "\xff";
  return s;
}
// puts an invalid string into one string position chosen at random; reports whether that position is validated
bool poison(Msg &m, Rng &r, std::string &path, bool &checked) {
  std::vector<std::pair<int, size_t>> strs; std::vector<std::pair<int, size_t>> subs;
  for (auto &[i, v] : m.f) for (size_t k = 0; k < v.size(); ++k) { const FieldDesc &f = m.d->fields[i]; if (f.type == Type::STRING && !is_msg(f)) strs.push_back({i, k}); if (v[k].m) subs.push_back({i, k}); }
  if (strs.empty() && subs.empty()) return false;
  bool down = strs.empty() || (!subs.empty() && r.chance(1, 2));
  if (down) { auto [i, k] = subs[r.below(subs.size())]; path += std::string(".") + m.d->fields[i].name; if (poison(*m.f[i][k].m, r, path, checked)) return true; if (strs.empty()) return false; }
  auto [i, k] = strs[r.below(strs.size())]; path += std::string(".") + m.d->fields[i].name;
  m.f[i][k].s = bad_utf8(r); checked = m.d->fields[i].utf8; return true;
}
void p10(const Box &b, Rng &r) {
  GenOpts go = pick_opts(r); go.invalid_utf8_ok = true; Msg m = gen(b.desc(), r, go);
  std::string path; bool checked = false;
  bool poisoned = r.chance(2, 3) && poison(m, r, path, checked);
  if (poisoned) canon(m);
  std::string enc = encode(m);
  mon::begin(("p10 " + mname(b)).c_str(), enc); mon::seen(mname(b), enc);
  mon::count(!poisoned ? "valid" : checked ? "invalid-checked" : "invalid-unchecked");
  if (poisoned) mon::count(std::string("position:") + b.desc().name + path);
  // decide by the reference: any invalid string in a checked position
  Decoded d = decode(b.desc(), enc, dopts(b));
  bool want = d.v == ACCEPT;
  static const ReadKind kinds[] = {R_SPAN, R_PADDED};
  for (ReadKind k : kinds) { auto o = b.make(); int ec = o->read(enc, k); if ((ec == 0) != want) return bad(b, std::string(want ? "rejected" : "accepted") + (k == R_PADDED ? "-padded" : ""), "parse status " + std::to_string(ec) + " for " + show(m) + " = " + hex(enc) + " (invalid string at" + path + ")");
    if (want && !(cget(*o) == d.m)) return bad(b, "value", "differs at " + diff(d.m, cget(*o))); }
  for (size_t step : {(size_t)1, (size_t)(1 + r.below(30))}) { std::vector<std::string> parts; for (size_t p = 0; p < enc.size(); p += step) parts.push_back(enc.substr(p, step)); if (parts.empty()) parts.emplace_back();
    auto o = b.make(); int ec = o->read_chunks(parts, 0); if ((ec == 0) != want) return bad(b, std::string(want ? "rejected" : "accepted") + "-segmented", "parse status " + std::to_string(ec) + " for " + seg_str(parts)); }
  auto w = b.make(); w->set(m); std::string out; int ec = w->write(out, W_VECTOR);
  if ((ec == 0) != want) return bad(b, want ? "write-rejected" : "write-accepted", "write status " + std::to_string(ec) + " for " + show(m) + " (invalid string at" + path + ")");
  if (want && normalized(*m.d, out) != normalized(*m.d, enc)) return bad(b, "write-bytes", hex(out));
  { // alternative encodings: every occurrence counts, also one that is overwritten later
    AltOpts a; std::string alt; GenOpts g2; g2.invalid_utf8_ok = true; alt_encode(m, r, a, g2, alt); Decoded da = decode(b.desc(), alt, dopts(b)); if (da.v == EITHER) return;
    mon::begin(("p10 alt " + mname(b)).c_str(), alt);
    auto o = b.make(); ec = o->read(alt, R_SPAN); if ((ec == 0) != (da.v == ACCEPT)) return bad(b, "alternative", "parse status " + std::to_string(ec) + " for " + hex(alt)); }
  if (mon::samples.size() < 6 && poisoned && r.chance(1, 20)) mon::sample(mname(b) + " invalid UTF-8 at" + path + (want ? " accepted" : " rejected") + " " + hex(enc, 80));
}
#endif

// ------------------------------------------------------------------ P11
void scan_closed(const Box &b, const Msg &m, const std::string &s) {
  for (auto &[i, v] : m.f) {
    if (i < 0) continue;
    const FieldDesc &f = m.d->fields[i];
    for (auto &x : v) {
      if (f.type == Type::ENUM) { if (f.closed) { mon::count("closed-values"); if (!g_enums[f.enum_].has((int32_t)x.u)) bad(b, std::string("exposed:") + f.name, "field " + std::string(f.name) + " of closed enum type holds " + std::to_string((int64_t)x.u) + " after parsing " + hex(s)); } else { mon::count("open-values"); if (!g_enums[f.enum_].has((int32_t)x.u)) mon::count("open-unknown-values"); } }
      if (x.m) scan_closed(b, *x.m, s);
    }
  }
}
bool has_enum(const MsgDesc &d, int depth = 0) { for (int i = 0; i < d.nfields; ++i) { if (d.fields[i].type == Type::ENUM) return true; if (is_msg(d.fields[i]) && depth < 2 && has_enum(sub(d.fields[i]), depth + 1)) return true; } return false; }
void inject_enums(const MsgDesc &d, std::string &s, Rng &r) { // records of enum fields with arbitrary 64-bit varints, packed or not
  std::vector<const FieldDesc *> es; for (int i = 0; i < d.nfields; ++i) if (d.fields[i].type == Type::ENUM) es.push_back(&d.fields[i]);
  if (es.empty()) return;
  auto val = [&](const FieldDesc &f) -> uint64_t { const EnumDesc &e = g_enums[f.enum_]; uint64_t v = (uint64_t)(int64_t)e.values[r.below((uint64_t)e.n)];
    switch (r.below(6)) { case 0: case 1: return v; case 2: return v + 1; case 3: return v | (r.next() << 32); case 4: return r.next() >> r.below(64); default: return (uint64_t)(int64_t)(int32_t)r.next(); } };
  for (int k = 1 + (int)r.below(5); k > 0; --k) {
    const FieldDesc &f = *es[r.below(es.size())];
    if (f.kind == Kind::REP && r.chance(1, 2)) { std::string p; for (int i = (int)r.below(7); i > 0; --i) put_varint(p, val(f)); put_tag(s, f.number, LEN); put_varint(s, p.size()); s += p; }
    else { put_tag(s, f.number, VARINT); put_varint(s, val(f)); }
  }
}
void p11(const Box &b, Rng &r) {
  if (!has_enum(b.desc())) return;
  Msg m = gen_for(b, r); std::string s; AltOpts a; GenOpts go; a.overlong = false; a.unknown = r.chance(1, 3); alt_encode(m, r, a, go, s);
  inject_enums(b.desc(), s, r);
  mon::begin(("p11 " + mname(b)).c_str(), s);
  Decoded d = decode(b.desc(), s, dopts(b));
  if (d.v != ACCEPT) { mon::count("skipped"); return; }
  mon::seen(mname(b), s);
  auto o = b.make(); int ec = o->read(s, R_SPAN);
  if (ec) return bad(b, "status", "status " + std::to_string(ec) + " for " + hex(s) + " = " + show(d.m));
  Msg got = cget(*o);
  scan_closed(b, got, s);
  if (!(got == d.m)) return bad(b, "value", "parsing " + hex(s) + " differs at " + diff(d.m, got));
  std::string out; ec = o->write(out, W_VECTOR);
  if (ec) return bad(b, "write-status", "status " + std::to_string(ec));
  Decoded back = decode(b.desc(), out, dopts(b));
  if (back.v != ACCEPT || !(back.m == d.m)) return bad(b, "rewrite", "writing the message read from " + hex(s) + " gave " + hex(out) + ", which differs at " + diff(d.m, back.m));
  { std::vector<std::string> parts; for (size_t p = 0; p < s.size();) { size_t n = 1 + r.below(5); parts.push_back(s.substr(p, n)); p += n; } if (parts.empty()) parts.emplace_back();
    auto oc = b.make(); if (oc->read_chunks(parts, 0) || !(cget(*oc) == d.m)) return bad(b, "segmented", "segmented parse of " + seg_str(parts)); }
  if (!d.m.unk.empty()) mon::count("unknown-retained");
  if (mon::samples.size() < 6 && r.chance(1, 30)) mon::sample(mname(b) + " " + hex(s, 100) + " = " + show(d.m));
}

// ------------------------------------------------------------------ P19
void p19(const Box &b, Rng &r) {
  const MsgDesc &d = b.desc();
  Msg none; none.d = &d; canon(none);
  // a fresh message: nothing present, nothing written (required fields apart), and defaults as declared
  auto fresh = b.make(), fresh2 = b.make();
  mon::begin(("p19 " + mname(b)).c_str());
  Msg got = cget(*fresh);
  if (!(got == none)) return bad(b, "fresh", "a default-constructed message holds " + show(got) + ", expected " + show(none));
  if (!has_nan(none) && !fresh->eq(*fresh2)) return bad(b, "fresh-equal", "two default-constructed messages differ");
  std::string out; if (fresh->write(out, W_VECTOR)) return bad(b, "fresh-write", "failed");
  if (normalized(d, out) != normalized(d, encode(none))) return bad(b, "fresh-bytes", "a default-constructed message is written as " + hex(out));
  g_read_absent = true; Msg defs = fresh->get(); g_read_absent = false;
  for (int i = 0; i < d.nfields; ++i) {
    const FieldDesc &f = d.fields[i];
    if (f.kind != Kind::ONE || is_msg(f) || f.oneof >= 0 || f.presence != Presence::EXPLICIT) continue;
    auto it = defs.f.find(i); if (it == defs.f.end() || it->second.empty()) { mon::count("default-not-readable"); continue; }
    mon::count("defaults-read");
    uint64_t u = it->second[0].u; bool nan = (f.type == Type::DOUBLE && std::isnan(std::bit_cast<double>(u)) && std::isnan(std::bit_cast<double>(f.def))) || (f.type == Type::FLOAT && std::isnan(std::bit_cast<float>((uint32_t)u)) && std::isnan(std::bit_cast<float>((uint32_t)f.def)));
    if ((u != f.def && !nan) || it->second[0].s != f.defstr) return bad(b, std::string("default:") + f.name, "absent field " + std::string(f.name) + " reads " + std::to_string((int64_t)u) + "/" + hex(it->second[0].s) + ", declared " + std::to_string((int64_t)f.def) + "/" + hex(f.defstr));
  }
  // one field at a time: its default, zero, another value
  if (!d.nfields) return;
  int i = (int)r.below((uint64_t)d.nfields); const FieldDesc &f = d.fields[i];
  if (f.kind == Kind::ONE) {
    Val v; const char *what = "value";
    switch (r.below(3)) { case 0: what = "default"; if (is_msg(f)) { v.m = std::make_shared<Msg>(); v.m->d = &sub(f); canon(*v.m); } else { v.u = f.def; v.s = f.defstr; } break;
      case 1: what = "zero"; if (is_msg(f)) { v.m = std::make_shared<Msg>(); v.m->d = &sub(f); canon(*v.m); } else if (f.type == Type::ENUM && f.closed && !g_enums[f.enum_].has(0)) v.u = f.def; break;
      default: { GenOpts go; v = gen_val(f, r, go, 1); if (v.m) canon(*v.m); } }
    Msg m; m.d = &d; m.f[i] = {v}; canon(m);
    std::string enc = encode(m);
    mon::begin(("p19 " + mname(b) + "." + f.name + " " + what).c_str(), enc); mon::seen(mname(b) + f.name, enc);
    mon::count(std::string(f.presence == Presence::IMPLICIT ? "implicit-" : f.presence == Presence::REQUIRED ? "required-" : "explicit-") + what);
    auto o = b.make(); o->set(m);
    Msg g2 = cget(*o); if (!(g2 == m)) return bad(b, std::string("set-") + what + ":" + f.name, "after assigning: " + show(g2) + " expected " + show(m));
    std::string w; if (o->write(w, W_VECTOR)) return bad(b, "write", "failed");
    if (normalized(d, w) != normalized(d, enc)) return bad(b, std::string("write-") + what + ":" + f.name, "field " + std::string(f.name) + " set to its " + what + " is written as " + hex(w) + ", expected " + hex(enc));
    auto o2 = b.make(); if (o2->read(w, R_SPAN) || !(cget(*o2) == m)) return bad(b, std::string("read-") + what + ":" + f.name, "presence lost reading " + hex(w));
    bool absent_equal = m == none;
    if (!has_nan(m)) {
      bool same_value = absent_equal;
      // -0.0 and 0.0 compare equal as values of fields without presence
      if (f.presence != Presence::EXPLICIT && f.oneof < 0 && (f.type == Type::DOUBLE || f.type == Type::FLOAT)) { double x = f.type == Type::DOUBLE ? std::bit_cast<double>(v.u) : (double)std::bit_cast<float>((uint32_t)v.u); if (x == 0) same_value = true; }
      if (o->eq(*fresh) != same_value) return bad(b, std::string("equal-") + what + ":" + f.name, "a message with " + std::string(f.name) + " set to its " + what + (same_value ? " differs from" : " equals") + " an empty one");
      if (!o->eq(*o2)) return bad(b, std::string("equal-read-") + what + ":" + f.name, "differs after reading");
    }
    // assigning an empty message resets it
    o->assign(*fresh2); if (!(cget(*o) == none) || (!has_nan(none) && !o->eq(*fresh))) return bad(b, std::string("reset:") + f.name, "after assigning an empty message: " + show(cget(*o)));
    // reading an empty input resets it
    if (o2->read("", R_SPAN) || !(cget(*o2) == none)) return bad(b, std::string("read-empty:") + f.name, "after reading no bytes: " + show(cget(*o2)));
    if (mon::samples.size() < 6 && r.chance(1, 20)) mon::sample(mname(b) + "." + f.name + " = " + what + " -> " + hex(w, 60));
  }
  { // random messages and their presence
    Msg m = gen_for(b, r); auto o = b.make(); o->set(m); mon::begin(("p19 any " + mname(b)).c_str(), encode(m)); mon::seen(mname(b), encode(m));
    if (!(cget(*o) == m)) return bad(b, "any", diff(m, cget(*o)));
    auto c = o->clone(); if (!(cget(*c) == m) || (!has_nan(m) && !c->eq(*o))) return bad(b, "copy", "a copy differs");
    Msg m2 = gen_for(b, r); auto p = b.make(); p->set(m2); if (!has_nan(m) && !has_nan(m2) && !(m == m2) && p->eq(*o) && !multi_map(m)) { // equal must mean equal (signed zeros apart)
      std::string x; p->write(x, W_VECTOR); std::string y; o->write(y, W_VECTOR); if (x.size() != y.size()) return bad(b, "equal-different", show(m) + " equals " + show(m2)); }
  }
}

// ------------------------------------------------------------------ P12
std::string bad_url(const std::string &name, Rng &r) {
  std::string u = "type.googleapis.com/" + name;
  switch (r.below(22)) {
  case 0: return name;                                  // no slash
  case 1: return "";
  case 2: return "type.googleapis.com/";
  case 3: return u + "/";
  case 4: return u + " ";
  case 5: return u + std::string(1, '\0');
  case 6: return u.substr(0, u.size() - 1);
  case 7: return "type.googleapis.com/." + name;
  case 8: return "type.googleapis.com/x" + name;
  case 9: return u + "2";
  case 10: { std::string x = u; size_t p = 20 + (size_t)r.below(name.size()); x[p] = (char)(x[p] ^ (1 << r.below(8))); if (x[p] == '/') x[p] = '~'; return x; }
  case 11: { std::string x = u; x.erase(20 + (size_t)r.below(name.size()), 1); return x; }
  case 12: { std::string x = u; for (size_t i = 20; i < x.size(); ++i) x[i] = (char)std::toupper((unsigned char)x[i]); return x; }
  case 13: return name.find('.') == std::string::npos ? "" : "type.googleapis.com/" + name.substr(name.find('.') + 1);
  case 14: return name.find('.') == std::string::npos ? "" : "type.googleapis.com/" + name.substr(name.rfind('.') + 1);
  case 15: { std::string x = u; x[x.rfind('.') == std::string::npos ? 0 : x.rfind('.')] = '/'; return x; }
  case 16: return "type.googleapis.com." + name;
  case 17: return "type.googleapis.com\\" + name;
  case 18: return "/";
  case 19: return u + "/" + std::string(1 + (size_t)r.below(40), 'x');
  case 20: return "type.googleapis.com/ " + name;
  default: { std::string x; size_t n = (size_t)r.below(60); for (size_t i = 0; i < n; ++i) x += (char)r.below(256); x += "/"; return x; }
  }
}
bool url_names(const std::string &url, const std::string &name) { size_t p = url.rfind('/'); return p != std::string::npos && url.substr(p + 1) == name; }
void p12(const Box &b, Rng &r) {
  Msg m = gen_for(b, r); std::string enc = encode(m), name = b.desc().name;
  mon::begin(("p12 " + mname(b)).c_str(), enc); mon::seen(mname(b), enc);
  auto o = b.make(); o->set(m);
  std::string url, value(r.below(64), 'v'); int kind = (int)r.below(3);
  int ec = o->pack(kind, url, value);
  if (ec == -99) { mon::count("groups-without-url"); return; }
  if (ec) return bad(b, "pack-status", "packing " + show(m) + " failed with " + std::to_string(ec));
  if (url != "type.googleapis.com/" + name) return bad(b, "pack-url", "the type URL is " + url);
  std::string w; if (o->write(w, W_VECTOR)) return bad(b, "write", "failed");
  if (multi_map(m) ? normalized(*m.d, value) != normalized(*m.d, w) : value != w) return bad(b, "pack-value", "the payload is " + hex(value) + ", the encoding is " + hex(w));
  if (!(cget(*o) == m)) return bad(b, "pack-modifies", "packing changed the message");
  mon::count("packed:kind" + std::to_string(kind));
  auto attempt = [&](const Box &tb, const std::string &u, const std::string &v, const char *what) {
    bool returning = r.chance(1, 2), has = false; int k = (int)r.below(3); bool named = url_names(u, tb.desc().name);
    auto t = tb.make(); if (!returning) t->set(gen_for(tb, r));
    int e = t->unpack(k, u, v, returning, has); Msg got = cget(*t);
    if (e == -99) return;
    if (e == -77) { bad(tb, "unpack-modifies", "unpacking changed the Any"); return; }
    std::string ctx = std::string(what) + ": unpacking type URL " + mon::jesc(u) + " payload " + hex(v) + " as " + tb.desc().name;
    if (has != (e == 0)) { bad(tb, "unpack-result", ctx + " has a value with status " + std::to_string(e)); return; }
    if (!named) {
      mon::count(std::string("refused:") + what);
      if (e == 0) bad(tb, std::string("accepted-") + what, ctx + " succeeded");
      return;
    }
    Decoded d = decode(tb.desc(), v, dopts(tb));
    if (d.v == EITHER) return;
    if ((e == 0) != (d.v == ACCEPT)) { bad(tb, std::string("status-") + what, ctx + " gave status " + std::to_string(e) + ", reference says " + vname(d.v)); return; }
    if (e == 0 && !(got == d.m)) { bad(tb, std::string("value-") + what, ctx + " gave " + show(got) + " expected " + show(d.m)); return; }
    mon::count(std::string(e ? "malformed:" : "unpacked:") + what);
  };
  attempt(b, url, value, "same");
  { // another storage trait of the same type, another type
    std::vector<const Box *> same; for (auto &x : boxes()) if (x.id == b.id && &x != &b) same.push_back(&x);
    if (!same.empty()) attempt(*same[r.below(same.size())], url, value, "same-other-traits");
    for (int i = 0; i < 3; ++i) { const Box &x = boxes()[r.below(boxes().size())]; attempt(x, url, value, x.id == b.id ? "same-other-traits" : "other-type"); }
  }
  for (int i = 0; i < 4; ++i) attempt(b, bad_url(name, r), value, "bad-url");
  { static const char *pre[] = {"/", "x/", "example.com/a/b/c/", "//", "type.googleapis.com//", "http://h/", " /", "type.googleapis.com/vp2.Leaf/", "\xff/"};
    attempt(b, pre[r.below(std::size(pre))] + name, value, "other-prefix");
    std::string p; for (size_t n = (size_t)r.below(300); n; --n) p += (char)(1 + r.below(255)); attempt(b, p + "/" + name, value, "other-prefix"); }
  attempt(b, url, hostile(b, r), "hostile-payload");
  { std::string t = value.substr(0, value.empty() ? 0 : (size_t)r.below(value.size())); attempt(b, url, t, "truncated-payload"); }
  if (mon::samples.size() < 6 && r.chance(1, 30)) mon::sample(mname(b) + " " + url + " " + hex(value, 60));
}

#ifdef VP_DYN
// ------------------------------------------------------------------ P15: the monitors of the generated messages, on dynamic messages, and both side by side
void p15(uint64_t c, Rng &r) {
  static std::vector<const Box *> dyn; if (dyn.empty()) for (auto &b : boxes()) if (b.drops) dyn.push_back(&b);
  const Box &b = *dyn[(size_t)((c * (uint64_t)mon::g.nshards + (uint64_t)mon::g.shard) % dyn.size())];
  bool limited = b.traits.find('@') != std::string::npos;
  static const char *names[] = {"round-trip", "conformance", "hostile", "segments", "sinks", "agreement", "recursion", "utf8", "enums", "agreement"};
  int k = limited ? 6 : (int)r.below(10); mon::count(std::string("part:") + names[k]);
  switch (k) {
  case 0: return p01(b, r); case 1: return p02(b, r); case 2: return p03(b, r); case 3: return p04(b, r); case 4: return p05(b, r);
  case 6: return p09(b, r, r.below(1000)); case 7: return p10(b, r); case 8: return p11(b, r); default: return p06(r.below(1 << 20), r);
  }
}
#endif
#ifdef VP_MEM
// ------------------------------------------------------------------ P16
// A memory resource that keeps a ledger. Blocks are separate heap blocks ending exactly where the request ends and aligned no better than requested.
struct Ledger : std::pmr::memory_resource {
  struct Blk { void *base; size_t n, a; };
  std::map<void *, Blk> live; std::string problem; uint64_t allocs = 0, total = 0;
  void *do_allocate(size_t n, size_t a) override {
    bool was = g_mem.armed; g_mem.armed = false;
    struct Re { bool w; ~Re() { g_mem.armed = w; } } re{was};
    if (was) { ++g_mem.events; if (g_mem.fail_at >= 0 && (int64_t)g_mem.events == g_mem.fail_at + 1) throw std::bad_alloc(); ++allocs; total += n; }
    if (a == 0 || (a & (a - 1))) problem = "alignment " + std::to_string(a) + " requested";
    size_t pad = a <= 8 ? a : 0; char *base = (char *)(a > 8 ? std::aligned_alloc(a, (n + a) / a * a) : std::malloc(n + pad)); if (!base) std::abort();
    void *p = base + pad; std::memset(p, 0xA5, n); live[p] = {base, n, a}; return p;
  }
  void do_deallocate(void *p, size_t n, size_t a) override {
    bool was = g_mem.armed; g_mem.armed = false;
    auto it = live.find(p);
    if (it == live.end()) problem = "a block that was not allocated from the resource (or was returned before) was returned to it";
    else {
      if (it->second.n != n || it->second.a != a) problem = "a block of " + std::to_string(it->second.n) + " bytes aligned to " + std::to_string(it->second.a) + " was returned as " + std::to_string(n) + " bytes aligned to " + std::to_string(a);
      std::memset(p, 0xDD, it->second.n); std::free(it->second.base); live.erase(it);
    }
    g_mem.armed = was;
  }
  bool do_is_equal(const std::pmr::memory_resource &o) const noexcept override { return this == &o; }
  void release() { for (auto &[p, b] : live) std::free(b.base); live.clear(); }
  ~Ledger() override { release(); }
};
const char *op_name(MemOp o) { static const char *n[] = {"read", "read-padded", "read-chunks", "read-returning", "write", "write-sink", "merge", "merge-move", "copy", "any"}; return n[o]; }
void p16(const Box &b, Rng &r) {
  GenOpts go = pick_opts(r); if (go.big) go.str_max = 1500; Msg m = gen(b.desc(), r, go), m2 = gen(b.desc(), r, pick_opts(r));
  std::string enc = encode(m); if (r.chance(1, 4)) enc = hostile(b, r); else if (r.chance(1, 2)) { AltOpts a; GenOpts g2; enc.clear(); alt_encode(m, r, a, g2, enc); }
  MemOp op = (MemOp)r.below(MO_ANY); bool with_cache = r.chance(1, 2);
  std::string what = std::string("p16 ") + mname(b) + " " + op_name(op) + (with_cache ? " cache" : "");
  mon::begin(what.c_str(), enc); mon::seen(what, enc);
  std::vector<std::string> parts; for (size_t p = 0; p < enc.size();) { size_t n = r.chance(1, 8) ? 0 : 1 + r.below(r.chance(1, 2) ? 40 : 5); parts.push_back(enc.substr(p, n)); p += n; }
  if (parts.empty()) parts.emplace_back();
  bool reading = op <= MO_EXPECTED;
  // one run; the destination starts as start(), everything is in ledgers
  auto run = [&](int64_t fail_at, bool again, std::string &out_state, uint64_t &events, bool &threw, int &ec) -> bool {
    Ledger la, lc, ld; auto *old = std::pmr::set_default_resource(&ld); bool ok = true;
    std::string key; // first problem
    {
      auto o = b.make(), s = b.make();
      if (reading ? r.chance(1, 2) : true) o->set(op == MO_MERGE || op == MO_MERGE_MOVE || reading ? m2 : m);
      s->set(m);
      std::string out; threw = false; ec = 0;
      g_mem = MemWatch{}; g_mem.fail_at = fail_at;
      la.allocs = lc.allocs = ld.allocs = 0; size_t d0 = ld.live.size();
      try { ec = o->mem_op(op, enc, &parts, s.get(), &out, &la, with_cache ? &lc : nullptr); }
      catch (const std::bad_alloc &) { threw = true; }
      g_mem.armed = false; events = g_mem.events;
      if (!b.owning || b.pmr) { if (g_mem.news) { key = "global-new"; ok = false; bad(b, std::string(op_name(op)) + ":global-new", std::to_string(g_mem.news) + " allocations from operator new"); } }
      if (!b.owning) {
        bool temp_ok = !with_cache && op != MO_MERGE && op != MO_MERGE_MOVE && op != MO_COPY; // working memory beyond the stack buffer
        if (ld.allocs && !temp_ok) { ok = false; bad(b, std::string(op_name(op)) + ":default-resource", std::to_string(ld.allocs) + " allocations from the default memory resource"); }
        if (ld.live.size() != d0) { ok = false; bad(b, std::string(op_name(op)) + ":default-resource-kept", "blocks of the default memory resource remain in use"); }
        if (op == MO_COPY && la.allocs) { ok = false; bad(b, "copy:allocates", "copying a non-owning message allocated"); }
        mon::count("resource-blocks", la.allocs);
      }
      if (b.pmr) mon::count("pmr-blocks", ld.allocs);
      if (with_cache) mon::count("cache-blocks", lc.allocs);
      if (!lc.live.empty()) { ok = false; bad(b, std::string(op_name(op)) + ":cache-kept", "blocks of the cache resource remain in use"); }
      if (with_cache && !b.pmr && ld.allocs) { ok = false; bad(b, std::string(op_name(op)) + ":cache-ignored", "the default memory resource was used although a cache resource was supplied"); }
      if (threw && again) { // the destination can be used again
        mon::count("exceptions-injected");
        g_mem = MemWatch{};
        if (reading) ec = o->mem_op(op, enc, &parts, s.get(), &out, &la, with_cache ? &lc : nullptr);
        else if (op == MO_WRITE || op == MO_SINK) ec = o->mem_op(op, enc, &parts, s.get(), &out, &la, with_cache ? &lc : nullptr);
        else { (void)o->get(); auto s2 = b.make(); s2->set(m); ec = o->mem_op(MO_COPY, enc, &parts, s2.get(), &out, &la, nullptr); if (!(cget(*o) == m)) { ok = false; bad(b, std::string(op_name(op)) + ":reuse", "assigning after a failed allocation gives " + show(cget(*o))); } }
        g_mem.armed = false;
      }
      if (!threw || again) out_state = (op == MO_WRITE || op == MO_SINK) ? out : show(cget(*o));
      if (op == MO_SINK) out_state = out_state.substr(0, 1 << 20);
      // views must not refer to anything but the supplied resource (and the padded input): the rest is gone or scribbled over
    }
    if (b.pmr || b.owning) if (!ld.live.empty()) { ok = false; bad(b, std::string(op_name(op)) + ":leak", std::to_string(ld.live.size()) + " blocks of the memory resource were never returned"); }
    if (b.owning && !la.live.empty()) { ok = false; bad(b, std::string(op_name(op)) + ":leak", "blocks of the buffer's resource were never returned"); }
    for (Ledger *l : {&la, &lc, &ld}) if (!l->problem.empty()) { ok = false; bad(b, std::string(op_name(op)) + ":ledger", l->problem); }
    std::pmr::set_default_resource(old);
    return ok;
  };
  uint64_t events = 0, ev2 = 0; bool threw = false; int ec0 = 0, ec = 0; std::string st0, st;
  if (!run(-1, false, st0, events, threw, ec0)) return;
  mon::count(std::string("ops:") + op_name(op)); mon::count(ec0 ? "failed-status" : "ok-status");
  if (threw) return bad(b, "throws", "an exception without a failed allocation");
  if (reading) { Decoded d = decode(b.desc(), enc, dopts(b)); if (d.v != EITHER && (ec0 == 0) != (d.v == ACCEPT)) return bad(b, "status", "status " + std::to_string(ec0)); if (d.v == ACCEPT && st0 != show(d.m)) return bad(b, std::string(op_name(op)) + ":value", st0 + " instead of " + show(d.m)); }
  // failure at every allocation (sampled when there are many)
  uint64_t step = events > 60 ? events / 40 : 1;
  for (uint64_t k = r.below(step); k < events; k += step) {
    mon::begin((what + " fail@" + std::to_string(k)).c_str(), enc);
    if (!run((int64_t)k, true, st, ev2, threw, ec)) return;
    if (!threw) { if (op == MO_SPAN || op == MO_PADDED || op == MO_CHUNKS || op == MO_EXPECTED) { /* the used destination may free or reuse other blocks */ } mon::count("failure-not-reached"); continue; }
    if (reading || op == MO_WRITE || op == MO_SINK) if (ec != ec0 || (ec0 == 0 && st != st0)) return bad(b, std::string(op_name(op)) + ":after-failure", "after a failed allocation the same operation gives " + st + " instead of " + st0);
  }
  if (mon::samples.size() < 6 && r.chance(1, 10)) mon::sample(what + " " + std::to_string(events) + " allocations " + hex(enc, 60));
}
#endif
} // namespace

int main(int argc, char **argv) {
  mon::init(argc, argv);
#ifdef VP_HOOKS
  __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#endif
  std::sort(boxes().begin(), boxes().end(), [](const Box &a, const Box &b) { return std::tie(a.id, a.traits) < std::tie(b.id, b.traits); });
  Rng r(mon::g.seed * 1000003 + (uint64_t)mon::g.shard);
  std::string m = mode();
  mon::counts["boxes"] = mon::g.shard == 0 ? boxes().size() : 0;
  for (uint64_t c = 0; c < mon::g.cases; ++c) {
    const Box &b = pick_box(c);
    Rng cr(r.next());
    if (m == "p01") p01(b, cr); else if (m == "p02") p02(b, cr); else if (m == "p03") p03(b, cr); else if (m == "p04") p04(b, cr);
    else if (m == "p05") p05(b, cr); else if (m == "p06") p06(c, cr); else if (m == "p07") p07(b, cr); else if (m == "p08") p08(b, cr);
    else if (m == "p09") p09(b, cr, c);
#ifdef VP_UTF8
    else if (m == "p10") { p10(b, cr); mon::counts["utf8-validator-calls"] = g_utf8_calls; }
#endif
    else if (m == "p11") p11(b, cr); else if (m == "p19") p19(b, cr); else if (m == "p12") p12(b, cr);
#ifdef VP_DYN
    else if (m == "p15") p15(c, cr);
#endif
#ifdef VP_MEM
    else if (m == "p16") p16(b, cr);
#endif
    else { std::fprintf(stderr, "unknown mode %s\n", m.c_str()); return 2; }
  }
  return mon::finish();
}
