// P14: dynamic messages against a plain value model, operation by operation, through every access route, with
// injected allocation failures. -DVP_FDS="path of the descriptor set"
#include "mon.hpp"
#include "dynacc.hpp"
#include <hpp_proto/dynamic_message/factory.hpp>
#include <hpp_proto/dynamic_message/expected_message_mref.hpp>
#include <cctype>
#include <deque>
#include <fstream>
#include <functional>
#include <memory_resource>
#include <new>
#include <optional>
#include <sstream>

extern "C" bool is_utf8(const char *p, size_t n) { return ref::valid_utf8({p, n}); }

namespace ref {
namespace {
using hp::dynamic_message_errc;
using MV = hp::message_value_mref;
using CV = hp::message_value_cref;
using Res = std::expected<void, dynamic_message_errc>;
long fuse = -1; // the allocation that fails, counted down
// An arena whose blocks are exact-size heap blocks, so that AddressSanitizer sees every overrun and use after release.
struct Arena : std::pmr::monotonic_buffer_resource {
  std::vector<std::pair<void *, size_t>> blocks;
  void *do_allocate(size_t n, size_t al) override {
    if (fuse >= 0 && fuse-- == 0) { mon::count("exceptions-injected"); throw std::bad_alloc{}; }
    if (al > 16 || n > (1u << 28)) throw std::bad_alloc{};
    void *p = std::malloc(n ? n : 1); std::memset(p, 0xA5, n); blocks.emplace_back(p, n); mon::count("arena-blocks"); return p;
  }
  void do_deallocate(void *, size_t, size_t) override {}
  ~Arena() override { for (auto &[p, n] : blocks) { std::memset(p, 0x5A, n); std::free(p); } }
};
hp::dynamic_message_factory &factory() {
  static hp::dynamic_message_factory f = [] {
    std::ifstream in(VP_FDS, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
    auto r = hp::dynamic_message_factory::create(std::span<const char>(s.data(), s.size()));
    if (!r) { std::fprintf(stderr, "no factory: %d\n", (int)r.error()); std::exit(2); }
    return std::move(*r);
  }();
  return f;
}
// Fields without presence that hold their default are the same as unset ones.
void trim(Msg &m) {
  for (auto it = m.f.begin(); it != m.f.end();) {
    const FieldDesc &f = m.d->fields[it->first]; auto &v = it->second;
    for (auto &x : v) if (x.m) { trim(*x.m); }
    if (v.empty() || (f.kind == Kind::ONE && f.presence == Presence::IMPLICIT && f.oneof < 0 && !is_msg(f) && v[0].u == 0 && v[0].s.empty())) it = m.f.erase(it); else ++it;
  }
}
Msg clone(const Msg &m) { // Msg copies share sub-messages
  Msg r; r.d = m.d; r.unk = m.unk;
  for (auto &[i, v] : m.f) for (auto &x : v) { Val y = x; if (x.m) y.m = std::make_shared<Msg>(clone(*x.m)); r.f[i].push_back(y); }
  return r;
}
void forget(Msg &m, int idx) { // idx < 0: the whole message
  if (idx < 0) { m.f.clear(); return; }
  const FieldDesc &f = m.d->fields[idx]; m.f.erase(idx);
  if (f.oneof >= 0) clear_oneof(m, f, -1);
}
std::string camel(std::string_view n) { std::string o; bool up = false; for (char c : n) { if (c == '_') up = true; else { o += up ? (char)std::toupper(c) : c; up = false; } } return o; }

struct Obj14 {
  const MsgDesc *d; std::unique_ptr<Arena> mr; std::optional<MV> m; Msg model;
  void birth(const MsgDesc &d_) { d = &d_; mr = std::make_unique<Arena>(); m.emplace(*factory().get_message(d_.name, *mr)); model = Msg{d, {}, {}}; }
};
// What a value offered to a field is.
enum Cls { C_I32, C_I64, C_U32, C_U64, C_F, C_D, C_B, C_STR, C_BYTES, C_ENUM, C_MSG, C_N };
int cls_of(const FieldDesc &f) {
  switch (f.type) {
  case Type::INT32: case Type::SINT32: case Type::SFIXED32: return C_I32;
  case Type::INT64: case Type::SINT64: case Type::SFIXED64: return C_I64;
  case Type::UINT32: case Type::FIXED32: return C_U32;
  case Type::UINT64: case Type::FIXED64: return C_U64;
  case Type::FLOAT: return C_F; case Type::DOUBLE: return C_D; case Type::BOOL: return C_B;
  case Type::STRING: return C_STR; case Type::BYTES: return C_BYTES; case Type::ENUM: return C_ENUM;
  default: return C_MSG;
  }
}
FieldDesc proxy(int c) { FieldDesc f; static const Type t[] = {Type::INT32, Type::INT64, Type::UINT32, Type::UINT64, Type::FLOAT, Type::DOUBLE, Type::BOOL, Type::STRING, Type::BYTES}; f.type = t[c]; return f; }

struct Run {
  Rng r; std::string trace; const MsgDesc &d; std::vector<Obj14> objs; std::vector<std::shared_ptr<void>> keep; bool dead = false;
  GenOpts go;
  Run(uint64_t seed, const MsgDesc &d_) : r(seed), d(d_), objs(3) { for (auto &o : objs) o.birth(d); go.max_depth = 2; go.str_max = 12; go.fill_den = 3; }
  // the running operation
  std::string op; int cur = 0; std::vector<std::pair<int, size_t>> path; int scope = -1;
  void bad(const std::string &k, const std::string &w) { dead = true; mon::fail("p14:" + k + ":" + d.name, w + "\nlast operation: " + op + "\nhistory: " + trace.substr(trace.size() > 3000 ? trace.size() - 3000 : 0)); }
  void note(const std::string &s) { op = s; trace += s + "; "; mon::count("ops:" + s.substr(0, s.find(' '))); mon::seen(d.name, trace); }
  std::string pth() { std::string s = std::to_string(cur); for (auto &[i, k] : path) s += "." + std::to_string(i) + "[" + std::to_string(k) + "]"; return s; }

  // ------------------------------------------------------------ comparison
  Msg read(CV m, const MsgDesc &dd) { Msg x; x.d = &dd; dyn_get(m, x); return x; }
  bool same(const std::string &when, Msg a, Msg b) {
    trim(a); trim(b); if (a == b) return true;
    bad("value", when + ": model vs object: " + diff(a, b)); return false;
  }
  bool check() { for (size_t i = 0; i < objs.size(); ++i) if (!same("object " + std::to_string(i), clone(objs[i].model), read(objs[i].m->cref(), d))) return false; return true; }

  // ------------------------------------------------------------ node choice
  struct Node { MV m; Msg *x; };
  std::optional<MV> child(const MV &m, const FieldDesc &f, size_t k) {
    auto fr = m.field_by_number(f.number); std::optional<MV> c;
    if (!fr) return c;
    if (f.kind == Kind::ONE) { auto t = fr->to<hp::message_field_mref>(); if (t && t->has_value()) c.emplace(t->value()); }
    else { auto t = fr->to<hp::repeated_message_field_mref>(); if (t && k < t->size()) c.emplace((*t)[k]); }
    return c;
  }
  std::optional<Node> pick() {
    cur = (int)r.below(objs.size()); path.clear(); Node n{*objs[cur].m, &objs[cur].model};
    while (r.chance(3, 5)) {
      std::vector<std::pair<int, size_t>> c;
      for (auto &[i, v] : n.x->f) if (is_msg(n.x->d->fields[i])) for (size_t k = 0; k < v.size(); ++k) c.emplace_back(i, k);
      if (c.empty()) break;
      auto [i, k] = c[r.below(c.size())];
      auto m = child(n.m, n.x->d->fields[i], k);
      if (!m) { bad("presence", "no sub-message at " + pth() + "." + n.x->d->fields[i].name); return {}; }
      path.emplace_back(i, k); n = Node{*m, n.x->f[i][k].m.get()};
    }
    return n;
  }
  // after an allocation failure: everything outside the operation's target is as before, and the target can be read
  void recover(const Msg &before) {
    fuse = -1; mon::count("failures-survived");
    Msg now = read(objs[cur].m->cref(), d), a = clone(before), b = clone(now);
    Msg *x = &a, *y = &b;
    for (auto &[i, k] : path) {
      if (!x->f.count(i) || k >= x->f[i].size() || !y->f.count(i) || k >= y->f[i].size()) { bad("failure", "an allocation failure removed " + pth()); return; }
      x = x->f[i][k].m.get(); y = y->f[i][k].m.get();
    }
    forget(*x, scope); forget(*y, scope);
    if (!same("after an allocation failure", a, b)) return;
    objs[cur].model = now;
  }
  // ------------------------------------------------------------ setting values of any C++ type through every route
  template <class V> Res route(const MV &m, const FieldDesc &f, int idx, const V &v, int how) {
    switch (how) {
    case 0: { auto e = m.set_field_by_name(f.name, V(v)); if (!e) return std::unexpected(e.error()); return {}; }
    case 1: { auto e = m.set_field_by_number(f.number, V(v)); if (!e) return std::unexpected(e.error()); return {}; }
    case 2: return m.field_by_name(f.name)->set(V(v));
    case 3: return m.field_by_number(f.number)->set(V(v));
    case 4: return hp::expected_message_mref(m).set_field_by_name(f.name, V(v)).done();
    case 5: return hp::expected_message_mref(m).set_field_by_number(f.number, V(v)).done();
    case 6: { // a chain that fails first does not reach this field
      auto e = hp::expected_message_mref(m).set_field_by_name("no such field", V(v)).set_field_by_number(f.number, V(v)).done();
      if (e || e.error() != dynamic_message_errc::no_such_field) bad("chain", "a chain with an unknown field did not report it");
      return m.field_by_number(f.number)->set(V(v));
    }
    default: { auto fs = m.fields(); auto it = fs.begin(); std::advance(it, idx); return (*it).set(V(v)); }
    }
  }
  void expect(const char *what, const FieldDesc &f, const Res &got, std::optional<dynamic_message_errc> want) {
    bool ok = got.has_value() ? !want : want && got.error() == *want;
    if (!ok) bad("status", std::string(what) + " of " + f.name + " gave " + (got ? "success" : std::to_string((int)got.error())) + " instead of " + (want ? std::to_string((int)*want) : "success"));
    if (want) mon::count("refusals");
  }
  template <class V> void offer(Node &n, int idx, const V &v, int c, bool rep, std::vector<Val> vals, std::optional<dynamic_message_errc> own_error = {}) {
    const FieldDesc &f = n.x->d->fields[idx]; int how = (int)r.below(8);
    bool fits = cls_of(f) == c && (f.kind != Kind::ONE) == rep;
    note("set" + std::string(fits ? "" : "-wrong-type") + " " + pth() + "." + f.name + " cls " + std::to_string(c) + (rep ? "[]" : "") + " route " + std::to_string(how));
    scope = idx; Msg before = clone(objs[cur].model);
    try {
      Res e = route(n.m, f, idx, v, how);
      fuse = -1;
      if (!fits) { expect("set", f, e, dynamic_message_errc::invalid_field_type); return; }
      expect("set", f, e, own_error);
      if (own_error) { if (rep && c == C_ENUM) recover(before); return; } // a list of names with an unknown one: contents unspecified
      if (f.kind == Kind::ONE) clear_oneof(*n.x, f, idx);
      n.x->f[idx] = std::move(vals); if (n.x->f[idx].empty()) n.x->f.erase(idx);
    } catch (const std::bad_alloc &) { recover(before); }
  }
  template <class T> void offer_num(Node &n, int idx, int c) {
    FieldDesc p = proxy(c); Val v; v.u = gen_scalar(r, p); offer<T>(n, idx, dval<T>(v.u), c, false, {v});
  }
  template <class T> void offer_nums(Node &n, int idx, int c) {
    FieldDesc p = proxy(c); std::vector<Val> vs(r.below(5)); std::deque<T> q;
    for (auto &v : vs) { v.u = gen_scalar(r, p); q.push_back(dval<T>(v.u)); }
    if (r.chance(1, 2)) offer(n, idx, q, c, true, vs);
    else if constexpr (!std::is_same_v<T, bool>) offer(n, idx, std::vector<T>(q.begin(), q.end()), c, true, vs);
    else offer(n, idx, q, c, true, vs);
  }
  bool enum_val(const FieldDesc &f, int32_t &num, std::string &name) { // false: a name the enum does not have
    if (f.enum_ < 0) { name = "NOPE"; num = 1; return false; }
    const EnumDesc &e = g_enums[f.enum_]; int k = (int)r.below((uint64_t)e.n); name = e.names[k]; num = e.values[k];
    if (r.chance(1, 6)) { name += "_"; return false; }
    return true;
  }
  const MsgDesc &other_type(const MsgDesc &not_this) { for (;;) { const MsgDesc &x = g_msgs[r.below(std::size(g_msgs))]; if (&x != &not_this && !x.map_entry) return x; } }
  void op_set(Node &n) {
    if (n.x->d->nfields == 0) return;
    int idx = (int)r.below((uint64_t)n.x->d->nfields); const FieldDesc &f = n.x->d->fields[idx];
    bool rep = f.kind != Kind::ONE; int c = cls_of(f);
    if (r.chance(1, 5)) { c = (int)r.below(C_N); rep = r.chance(1, 2); }
    if (r.chance(1, 8)) fuse = (long)r.below(4);
    switch (c) {
    case C_I32: rep ? offer_nums<int32_t>(n, idx, c) : offer_num<int32_t>(n, idx, c); break;
    case C_I64: rep ? offer_nums<int64_t>(n, idx, c) : offer_num<int64_t>(n, idx, c); break;
    case C_U32: rep ? offer_nums<uint32_t>(n, idx, c) : offer_num<uint32_t>(n, idx, c); break;
    case C_U64: rep ? offer_nums<uint64_t>(n, idx, c) : offer_num<uint64_t>(n, idx, c); break;
    case C_F: rep ? offer_nums<float>(n, idx, c) : offer_num<float>(n, idx, c); break;
    case C_D: rep ? offer_nums<double>(n, idx, c) : offer_num<double>(n, idx, c); break;
    case C_B: rep ? offer_nums<bool>(n, idx, c) : offer_num<bool>(n, idx, c); break;
    case C_STR: case C_BYTES: {
      FieldDesc p = proxy(c); std::vector<Val> vs(rep ? r.below(5) : 1); for (auto &v : vs) v.s = gen_string(r, p, go);
      if (c == C_STR && !rep) {
        if (r.chance(1, 3)) offer(n, idx, std::string(vs[0].s), c, rep, vs);
        else offer(n, idx, std::string_view(vs[0].s), c, rep, vs);
      } else if (c == C_STR) {
        if (r.chance(1, 2)) { std::vector<std::string> q; for (auto &v : vs) q.push_back(v.s); offer(n, idx, q, c, rep, vs); }
        else { std::deque<std::string_view> q; for (auto &v : vs) q.push_back(v.s); offer(n, idx, q, c, rep, vs); }
      } else if (!rep) {
        auto b = dbytes(vs[0].s);
        if (r.chance(1, 2)) offer(n, idx, std::vector<std::byte>(b.begin(), b.end()), c, rep, vs); else offer(n, idx, b, c, rep, vs);
      } else { std::vector<std::span<const std::byte>> q; for (auto &v : vs) q.push_back(dbytes(v.s)); offer(n, idx, q, c, rep, vs); }
      break;
    }
    case C_ENUM: {
      bool natural = c == cls_of(f) && rep == (f.kind != Kind::ONE), by_name = r.chance(1, 2);
      if (!natural && !rep && cls_of(f) == C_STR) by_name = false; // a name is convertible to a string
      std::vector<Val> vs(rep ? r.below(5) : 1); std::vector<int32_t> nums; std::vector<std::string> names; bool known = true;
      for (auto &v : vs) { int32_t k; std::string s; if (by_name) known &= enum_val(f, k, s); else { if (f.enum_ >= 0) k = (int32_t)gen_scalar(r, f); else k = 3; } v.u = (uint64_t)(int64_t)k; nums.push_back(k); names.push_back(s); }
      std::optional<dynamic_message_errc> err; if (natural && by_name && !known) err = dynamic_message_errc::invalid_enum_name;
      if (!rep) { if (by_name) offer(n, idx, hp::enum_name{names[0]}, c, rep, vs, err); else offer(n, idx, hp::enum_number{nums[0]}, c, rep, vs); }
      else if (by_name) { std::vector<std::string_view> sv(names.begin(), names.end()); hp::enum_names_range q(sv); offer(n, idx, q, c, rep, vs, err); }
      else { hp::enum_numbers_range q(nums); offer(n, idx, q, c, rep, vs); }
      break;
    }
    default: { // messages, from an arena that goes away afterwards
      long fz = std::exchange(fuse, -1);
      bool right = is_msg(f) && r.chance(5, 6); const MsgDesc &sd = right ? sub(f) : other_type(is_msg(f) ? sub(f) : *n.x->d);
      if (sd.map_entry && !rep) { fuse = fz; return; }
      Arena tmp; std::vector<Val> vs; std::vector<MV> src; Msg holder;
      std::optional<MV> host; // map entries only exist inside their field
      size_t cnt = rep ? r.below(4) : 1;
      if (sd.map_entry) { host.emplace(*factory().get_message(n.x->d->name, tmp)); }
      for (size_t k = 0; k < cnt; ++k) {
        Val v; v.m = std::make_shared<Msg>(gen(sd, r, go, 1)); v.m->unk.clear();
        if (sd.map_entry) {
          auto l = host->typed_ref_by_number<hp::repeated_message_field_mref>(f.number); if (!l) { bad("typed-ref", f.name); return; }
          dyn_set(l->emplace_back(), *v.m);
        } else { src.push_back(*factory().get_message(sd.name, tmp)); dyn_set(src.back(), *v.m); }
        vs.push_back(v);
      }
      if (sd.map_entry) { auto l = host->typed_ref_by_number<hp::repeated_message_field_mref>(f.number); for (size_t k = 0; k < cnt; ++k) src.push_back((*l)[k]); }
      fuse = fz;
      std::optional<dynamic_message_errc> err; if (!right && cnt) err = dynamic_message_errc::wrong_message_type;
      if (!right && rep && cnt > 1 && is_msg(f) && r.chance(1, 2)) { // only the last one is of another type
        long fz2 = std::exchange(fuse, -1);
        if (!sub(f).map_entry) { src[0] = *factory().get_message(sub(f).name, tmp); mon::count("mixed-type-lists"); }
        fuse = fz2;
      }
      if (!rep) offer(n, idx, CV(src[0].cref()), C_MSG, rep, vs, err);
      else { std::vector<CV> q; for (auto &m : src) q.push_back(m.cref()); offer(n, idx, q, C_MSG, rep, vs, err); }
      // tmp goes away here
    }
    }
    fuse = -1;
  }
  // ------------------------------------------------------------ typed mutation of one field
  Val gv(const FieldDesc &f) { Val v = gen_val(f, r, go, 1); if (v.m) v.m->unk.clear(); return v; }
  std::string_view stay(const std::string &s) { auto p = std::make_shared<std::vector<char>>(s.begin(), s.end()); p->shrink_to_fit(); keep.push_back(p); return {p->data(), p->size()}; }
  template <class F> void expect_throw(const char *what, F f) { try { f(); bad("bounds", std::string(what) + " accepted a bad index"); } catch (const std::out_of_range &) { mon::count("out-of-range"); } }

  template <class C> void typed(Node &n, int idx, const C &ref) {
    constexpr auto kind = C::field_kind; const FieldDesc &f = n.x->d->fields[idx]; Msg &x = *n.x; auto &vec = x.f[idx];
    if constexpr (C::is_repeated) {
      switch (r.below(11)) {
      case 0: case 1: { Val v = gv(f); note("push_back " + pth() + "." + f.name);
        if constexpr (kind == hp::KIND_REPEATED_MESSAGE) { auto e = ref.emplace_back(); Msg got = read(e.cref(), sub(f)); if (!got.f.empty()) bad("stale", "a new element of " + std::string(f.name) + " is not empty: " + show(got)); dyn_set(e, *v.m); }
        else if constexpr (kind == hp::KIND_REPEATED_STRING) ref.push_back(std::string_view(v.s));
        else if constexpr (kind == hp::KIND_REPEATED_BYTES) ref.push_back(dbytes(v.s));
        else if constexpr (kind == hp::KIND_REPEATED_ENUM) {
          int32_t num; std::string name;
          if (r.chance(1, 2)) { bool known = enum_val(f, num, name); Res e = ref.push_back(hp::enum_name{name}); expect("push_back", f, e, known ? std::nullopt : std::optional(dynamic_message_errc::invalid_enum_name)); if (!known) return; v.u = (uint64_t)(int64_t)num; }
          else ref.push_back(hp::enum_number{(int32_t)v.u});
        } else ref.push_back(dval<typename C::value_type>(v.u));
        vec.push_back(v); break; }
      case 2: case 3: { size_t k = r.chance(1, 2) ? r.below(vec.size() + 1) : vec.size() + r.below(4), old = vec.size(); note("resize " + pth() + "." + f.name + " " + std::to_string(k));
        ref.resize(k); vec.resize(k);
        if (ref.size() != k) bad("size", "resize(" + std::to_string(k) + ") gave " + std::to_string(ref.size()));
        for (size_t i = old; i < k; ++i) {
          if constexpr (kind == hp::KIND_REPEATED_MESSAGE) { vec[i].m = std::make_shared<Msg>(); vec[i].m->d = &sub(f); }
          else if constexpr (kind == hp::KIND_REPEATED_STRING || kind == hp::KIND_REPEATED_BYTES) {}
          else if constexpr (kind == hp::KIND_REPEATED_ENUM) { vec[i] = gv(f); ref[i].set((int32_t)vec[i].u); }
          else { vec[i] = gv(f); ref[i] = dval<typename C::value_type>(vec[i].u); }
        }
        break; }
      case 4: { size_t k = r.below(2 * vec.size() + 3); note("reserve " + pth() + "." + f.name + " " + std::to_string(k)); ref.reserve(k); if (ref.capacity() < k) bad("capacity", "reserve(" + std::to_string(k) + ") gave " + std::to_string(ref.capacity())); if (ref.size() != vec.size()) bad("size", "reserve changed the size"); break; }
      case 5: { note("clear " + pth() + "." + f.name); C c = ref; if (r.chance(1, 2)) c.clear(); else c.reset(); vec.clear(); break; }
      case 6: case 7: if (!vec.empty()) { // assign one element
        size_t k = r.below(vec.size()); Val v = gv(f); bool at = r.chance(1, 2); note("assign " + pth() + "." + f.name + "[" + std::to_string(k) + "]");
        if constexpr (kind == hp::KIND_REPEATED_MESSAGE) { auto e = at ? ref.at(k) : ref[k]; e.reset(); vec[k].m = std::make_shared<Msg>(); vec[k].m->d = &sub(f); dyn_set(e, *v.m); vec[k] = v; }
        else if constexpr (kind == hp::KIND_REPEATED_STRING) { auto e = at ? ref.at(k) : ref[k]; if (r.chance(1, 4)) e.adopt(stay(v.s)); else e.set(std::string_view(v.s)); vec[k] = v; if (std::string_view(e) != v.s) bad("element", f.name); }
        else if constexpr (kind == hp::KIND_REPEATED_BYTES) { auto e = at ? ref.at(k) : ref[k]; if (r.chance(1, 4)) { auto s = stay(v.s); e.adopt(hp::bytes_view((const std::byte *)s.data(), s.size())); } else e.set(dbytes(v.s)); vec[k] = v; }
        else if constexpr (kind == hp::KIND_REPEATED_ENUM) { auto e = at ? ref.at(k) : ref[k]; e.set((int32_t)v.u); vec[k] = v; if (e.number() != (int32_t)v.u) bad("element", f.name); }
        else { auto x2 = dval<typename C::value_type>(v.u); if (at) ref.at(k) = x2; else ref[k] = x2; vec[k] = v; }
      } break;
      case 8: { note("bounds " + pth() + "." + f.name); size_t k = vec.size() + (r.chance(1, 2) ? 0 : r.below(100)); if (r.chance(1, 8)) k = SIZE_MAX; expect_throw(f.name, [&] { (void)ref.at(k); }); expect_throw(f.name, [&] { (void)hp::field_cref(n.m.cref().field(ref.descriptor())).template to<typename C::cref_type>()->at(k); }); break; }
      case 9: if constexpr (requires { typename C::storage_type; } && kind != hp::KIND_REPEATED_MESSAGE) { // adopt
        note("adopt " + pth() + "." + f.name); size_t k = r.below(5); vec.clear(); for (size_t i = 0; i < k; ++i) vec.push_back(gv(f));
        if constexpr (kind == hp::KIND_REPEATED_STRING) { auto p = std::make_shared<std::vector<std::string_view>>(); for (auto &v : vec) p->push_back(stay(v.s)); keep.push_back(p); ref.adopt(std::span(*p)); }
        else if constexpr (kind == hp::KIND_REPEATED_BYTES) { auto p = std::make_shared<std::vector<hp::bytes_view>>(); for (auto &v : vec) { auto s = stay(v.s); p->push_back(hp::bytes_view((const std::byte *)s.data(), s.size())); } keep.push_back(p); ref.adopt(std::span(*p)); }
        else { using E = std::conditional_t<kind == hp::KIND_REPEATED_ENUM, int32_t, std::remove_cvref_t<decltype(*ref.data())>>; auto p = std::shared_ptr<E[]>(new E[k]); for (size_t i = 0; i < k; ++i) p[i] = dval<E>(vec[i].u); keep.push_back(p); ref.adopt(std::span<E>(p.get(), k)); }
      } break;
      default: clone_field(n, idx, ref);
      }
    } else if constexpr (kind == hp::KIND_MESSAGE) {
      auto fresh = [&] { clear_oneof(x, f, idx); Val v; v.m = std::make_shared<Msg>(); v.m->d = &sub(f); x.f[idx] = {v}; };
      switch (r.below(6)) {
      case 0: case 1: { note("emplace " + pth() + "." + f.name); Val v = gv(f); auto e = ref.emplace(); fresh(); Msg got = read(e.cref(), sub(f)); if (!got.f.empty()) bad("stale", "emplace() of " + std::string(f.name) + " gave a message that is not empty: " + show(got)); dyn_set(e, *v.m); x.f[idx] = {v}; break; }
      case 2: note("set_as_default " + pth() + "." + f.name); ref.set_as_default(); fresh(); break;
      case 3: note("reset " + pth() + "." + f.name); ref.reset(); x.f.erase(idx); break;
      case 4: { note("message-value " + pth() + "." + f.name); bool has = !vec.empty();
        if (ref.has_value() != has) bad("presence", f.name);
        try { auto v = ref.value(); if (!has) bad("presence", std::string("value() of the absent ") + f.name + " did not throw"); else if (!(read(v.cref(), sub(f)) == read(ref.cref().value(), sub(f)))) bad("view", f.name); } catch (const std::bad_optional_access &) { if (has) bad("presence", std::string("value() of the present ") + f.name + " threw"); }
        auto g = ref.template get<CV>(); if (g.has_value() != has) bad("presence", f.name); else if (!has && g.error() != dynamic_message_errc::no_such_value) bad("status", "get of an absent message");
        break; }
      default: clone_field(n, idx, ref);
      }
    } else {
      Val v = gv(f);
      auto store = [&] { clear_oneof(x, f, idx); x.f[idx] = {v}; };
      switch (r.below(7)) {
      case 0: case 1: note("typed-set " + pth() + "." + f.name);
        if constexpr (kind == hp::KIND_STRING) ref.set(std::string_view(v.s)); else if constexpr (kind == hp::KIND_BYTES) ref.set(dbytes(v.s));
        else if constexpr (kind == hp::KIND_ENUM) ref.set(hp::enum_number{(int32_t)v.u}); else ref.set(dval<typename C::value_type>(v.u));
        store(); break;
      case 2: note("reset " + pth() + "." + f.name); ref.reset(); x.f.erase(idx); break;
      case 3: note("set_as_default " + pth() + "." + f.name); ref.set_as_default(); v = Val{}; v.u = f.def; v.s = f.defstr; store(); break;
      case 4:
        if constexpr (kind == hp::KIND_STRING) { note("adopt " + pth() + "." + f.name); ref.adopt(stay(v.s)); store(); }
        else if constexpr (kind == hp::KIND_BYTES) { note("adopt " + pth() + "." + f.name); auto s = stay(v.s); ref.adopt({(const std::byte *)s.data(), s.size()}); store(); }
        else { note("emplace " + pth() + "." + f.name); if constexpr (kind == hp::KIND_ENUM) ref.emplace().set((int32_t)v.u); else ref.emplace() = dval<typename C::value_type>(v.u); store(); }
        break;
      case 5: if constexpr (kind == hp::KIND_ENUM) if (!vec.empty()) { note("enum-value-set " + pth() + "." + f.name); ref.value().set((int32_t)v.u); store(); break; } [[fallthrough]];
      default: clone_field(n, idx, ref);
      }
    }
    if (x.f.count(idx) && x.f[idx].empty()) x.f.erase(idx);
  }
  template <class C> void clone_field(Node &n, int idx, const C &ref) { // from a message in another arena, which goes away
    const FieldDesc &f = n.x->d->fields[idx]; note("clone-field " + pth() + "." + f.name);
    if (n.x->d->map_entry) return;
    long fz = std::exchange(fuse, -1);
    Arena tmp; MV src = *factory().get_message(n.x->d->name, tmp); Msg sm{n.x->d, {}, {}};
    if (r.chance(3, 4)) { size_t k = f.kind == Kind::ONE ? 1 : r.below(4); for (size_t i = 0; i < k; ++i) sm.f[idx].push_back(gv(f)); if (!k) sm.f.clear(); }
    dyn_set(src, sm); auto from = src.field_by_number(f.number); fuse = fz;
    if (r.chance(1, 2)) { auto t = from->template to<C>(); ref.clone_from(hp::field_cref(*from).template to<typename C::cref_type>().value()); (void)t; }
    else n.m.field_by_number(f.number)->clone_from(from->cref());
    if (sm.f.count(idx)) { if (f.kind == Kind::ONE) clear_oneof(*n.x, f, idx); n.x->f[idx] = sm.f[idx]; } else n.x->f.erase(idx);
    fuse = -1;
  }
  void op_typed(Node &n) {
    if (n.x->d->nfields == 0) return;
    int idx = (int)r.below((uint64_t)n.x->d->nfields); const FieldDesc &f = n.x->d->fields[idx]; scope = idx;
    Msg before = clone(objs[cur].model); if (r.chance(1, 8)) fuse = (long)r.below(5);
    try {
      switch (r.below(4)) {
      case 0: { auto e = n.m.modify_field_by_name(f.name, [&](auto ref) -> Res { typed(n, idx, ref); return {}; }); if (!e) bad("status", "modify_field_by_name failed"); break; }
      case 1: { auto e = n.m.modify_field_by_number(f.number, [&](auto ref) -> Res { typed(n, idx, ref); return std::unexpected(dynamic_message_errc::wrong_message_type); }); if (e || e.error() != dynamic_message_errc::wrong_message_type) bad("status", "modify_field_by_number lost the mutator's error"); break; }
      default: n.m.field_by_number(f.number)->visit([&](auto ref) { typed(n, idx, ref); });
      }
      if (n.x->f.count(idx) && n.x->f[idx].empty()) n.x->f.erase(idx);
    } catch (const std::bad_alloc &) { recover(before); }
    fuse = -1;
  }
  // ------------------------------------------------------------ reading through every route
  template <class T, class Eq> void get_as(Node &n, int idx, int c, bool rep, Eq eq) {
    const FieldDesc &f = n.x->d->fields[idx]; bool fits = cls_of(f) == c && (f.kind != Kind::ONE) == rep;
    auto one = [&](auto e, const char *route) {
      if (!fits) { if (e || e.error() != dynamic_message_errc::invalid_field_type) bad("get", std::string(route) + " of " + f.name + " as a wrong type succeeded or reported something else"); mon::count("refusals"); return; }
      const char *w = eq(e); if (w) bad("get", std::string(route) + " of " + f.name + ": " + w);
      mon::count("typed-gets");
    };
    switch (r.below(4)) {
    case 0: one(n.m.template field_value_by_name<T>(f.name), "field_value_by_name"); break;
    case 1: one(n.m.template field_value_by_number<T>(f.number), "field_value_by_number"); break;
    case 2: if constexpr (std::is_same_v<typename hp::get_traits<T>::type, T>) { if (r.chance(1, 2)) one(n.m.cref().template field_value_by_name<T>(f.name), "const field_value_by_name"); else one(n.m.cref().template field_value_by_number<T>(f.number), "const field_value_by_number"); break; } [[fallthrough]];
    default: one(n.m.field_by_number(f.number)->template get<T>(), "get"); break;
    }
  }
  template <class T> void get_num(Node &n, int idx, int c, bool rep) {
    const FieldDesc &f = n.x->d->fields[idx]; static const std::vector<Val> none; auto &v = n.x->f.count(idx) ? n.x->f[idx] : none;
    if (!rep) get_as<T>(n, idx, c, rep, [&](auto &e) -> const char * { return !e ? "failed" : dbits(T(*e)) != (v.empty() ? f.def : v[0].u) ? "wrong value" : nullptr; });
    else get_as<std::span<const T>>(n, idx, c, rep, [&](auto &e) -> const char * { if (!e) return "failed"; if (e->size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); ++i) if (dbits((*e)[i]) != v[i].u) return "wrong element"; return nullptr; });
  }
  void op_get(Node &n) {
    if (n.x->d->nfields == 0) return;
    int idx = (int)r.below((uint64_t)n.x->d->nfields); const FieldDesc &f = n.x->d->fields[idx]; static const std::vector<Val> none; auto &v = n.x->f.count(idx) ? n.x->f[idx] : none;
    int c = cls_of(f); bool rep = f.kind != Kind::ONE; if (r.chance(1, 4)) { c = (int)r.below(C_N); rep = r.chance(1, 2); }
    note("get " + pth() + "." + f.name + " as " + std::to_string(c));
    switch (c) {
    case C_I32: get_num<int32_t>(n, idx, c, rep); break; case C_I64: get_num<int64_t>(n, idx, c, rep); break;
    case C_U32: get_num<uint32_t>(n, idx, c, rep); break; case C_U64: get_num<uint64_t>(n, idx, c, rep); break;
    case C_F: get_num<float>(n, idx, c, rep); break; case C_D: get_num<double>(n, idx, c, rep); break; case C_B: get_num<bool>(n, idx, c, rep); break;
    case C_STR:
      if (!rep) get_as<std::string_view>(n, idx, c, rep, [&](auto &e) -> const char * { return !e ? "failed" : std::string(*e) != (v.empty() ? f.defstr : v[0].s) ? "wrong value" : nullptr; });
      else get_as<std::span<const std::string_view>>(n, idx, c, rep, [&](auto &e) -> const char * { if (!e) return "failed"; if (e->size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); ++i) if ((*e)[i] != v[i].s) return "wrong element"; return nullptr; });
      break;
    case C_BYTES: {
      auto st = [](hp::bytes_view b) { return std::string((const char *)b.data(), b.size()); };
      if (!rep) get_as<hp::bytes_view>(n, idx, c, rep, [&](auto &e) -> const char * { return !e ? "failed" : st(*e) != (v.empty() ? f.defstr : v[0].s) ? "wrong value" : nullptr; });
      else get_as<std::span<const hp::bytes_view>>(n, idx, c, rep, [&](auto &e) -> const char * { if (!e) return "failed"; if (e->size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); ++i) if (st((*e)[i]) != v[i].s) return "wrong element"; return nullptr; });
      break;
    }
    case C_ENUM: {
      auto nm = [&](int32_t k) -> std::string { const EnumDesc &e = g_enums[f.enum_]; for (int i = 0; i < e.n; ++i) if (e.values[i] == k) return e.names[i]; return ""; };
      if (!rep) {
        get_as<hp::enum_number>(n, idx, c, rep, [&](auto &e) -> const char * { return !e ? "failed" : *e != (int32_t)(v.empty() ? f.def : v[0].u) ? "wrong value" : nullptr; });
        get_as<hp::enum_name>(n, idx, c, rep, [&](auto &e) -> const char * { std::string w = nm((int32_t)(v.empty() ? f.def : v[0].u)); if (w.empty()) return !e && e.error() == dynamic_message_errc::unknown_enum_value ? nullptr : "a name for an unknown value"; return !e ? "failed" : *e != w ? "wrong name" : nullptr; });
      } else {
        get_as<hp::enum_numbers_span>(n, idx, c, rep, [&](auto &e) -> const char * { if (!e) return "failed"; if (e->size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); ++i) if ((*e)[i] != (int32_t)v[i].u) return "wrong element"; return nullptr; });
        get_as<hp::enum_names_view>(n, idx, c, rep, [&](auto &e) -> const char * { if (!e) return "failed"; if (e->size() != v.size()) return "wrong size"; for (size_t i = 0; i < v.size(); ++i) if ((*e)[i] != nm((int32_t)v[i].u)) return "wrong name"; return nullptr; });
      }
      break;
    }
    default:
      if (!rep) get_as<CV>(n, idx, c, rep, [&](auto &e) -> const char * { if (v.empty()) return !e && e.error() == dynamic_message_errc::no_such_value ? nullptr : "an absent message has a value"; if (!e) return "failed"; Msg a = read(*e, sub(f)), b = clone(*v[0].m); trim(a); trim(b); return a == b ? nullptr : "wrong value"; });
    }
  }
  static uint32_t no_number(const MsgDesc &dd) { uint32_t k = 536870911; while (find_field(dd, k)) --k; return k; }
  // presence, oneofs, lookups, iteration
  void op_meta(Node &n) {
    const MsgDesc &dd = *n.x->d; note("meta " + pth());
    CV c = n.m.cref();
    if (n.m.field_by_name("no_such") || n.m.field_by_name("no_such").error() != dynamic_message_errc::no_such_field || n.m.field_by_number(no_number(dd))) bad("lookup", "an unknown field was found");
    if (c.field_by_name("") || c.field_by_number(0) || n.m.set_field_by_name("nope", 1) || n.m.set_field_by_number(no_number(dd), std::string_view("x"))) bad("lookup", "an unknown field was found");
    auto mv = n.m.field_value_by_name<int32_t>("nope"); if (mv || mv.error() != dynamic_message_errc::no_such_field) bad("lookup", "a value of an unknown field");
    size_t k = 0;
    for (auto f : n.m.fields()) {
      if (k >= (size_t)dd.nfields) { bad("iteration", "too many fields"); return; }
      auto num = (uint32_t)f.descriptor().proto().number; int idx = -1; const FieldDesc *fd = find_field(dd, num, &idx);
      if (!fd) { bad("iteration", "an unknown field"); return; }
      bool has = n.x->f.count(idx) && !n.x->f[idx].empty();
      bool implicit0 = fd->kind == Kind::ONE && fd->presence == Presence::IMPLICIT && fd->oneof < 0 && !is_msg(*fd) && (!has || (n.x->f[idx][0].u == 0 && n.x->f[idx][0].s.empty()));
      if (!implicit0 && (f.has_value() != has || f.cref().has_value() != has)) bad("presence", std::string("has_value() of ") + fd->name + " is " + (has ? "false" : "true"));
      bool ex = !implicit0 && has; // what would be serialized
      bool p = f.cref().visit([](auto r2) { if constexpr (requires { r2.is_present_or_explicit_default(); }) return r2.is_present_or_explicit_default(); else return r2.size() != 0; });
      if (p != ex && !dd.map_entry) bad("presence", std::string("is_present_or_explicit_default() of ") + fd->name + " is " + (ex ? "false" : "true"));
      int active = f.cref().active_oneof_index();
      int act = has ? idx : -1; if (fd->oneof >= 0) for (int q = 0; q < dd.nfields; ++q) if (dd.fields[q].oneof == fd->oneof && n.x->f.count(q)) act = q;
      if (act < 0 && active >= 0 && !implicit0) bad("oneof", std::string("active_oneof_index() of ") + fd->name + " with nothing set");
      if (has && !implicit0) { if (active < 0 || (size_t)active >= (size_t)dd.nfields) bad("oneof", "active index out of range"); else { auto it = n.m.fields().begin(); std::advance(it, active); if ((*it).descriptor().proto().number != (int)num) bad("oneof", std::string("active_oneof_index() of ") + fd->name + " names another field"); } }
      const auto *byname = c.field_descriptor_by_name(fd->name), *bynum = c.field_descriptor_by_number(num), *byjson = c.field_descriptor_by_json_name(camel(fd->name));
      if (byname != &f.descriptor() || bynum != &f.descriptor() || byjson != &f.descriptor()) bad("lookup", std::string("lookups of ") + fd->name + " disagree");
      if (fd->kind == Kind::ONE && !is_msg(*fd) && fd->presence != Presence::IMPLICIT && !f.explicit_presence()) bad("presence", std::string(fd->name) + " is said to have no presence");
      ++k;
    }
    if (k != (size_t)dd.nfields) bad("iteration", "too few fields");
    for (auto &o : n.m.descriptor().oneofs()) {
      bool any = false; for (auto &f : o.fields()) { int idx = -1; find_field(dd, (uint32_t)f.proto().number, &idx); if (idx >= 0 && n.x->f.count(idx) && !n.x->f[idx].empty()) any = true; }
      if (n.m.has_oneof(o) != any) bad("oneof", "has_oneof(" + std::string(o.proto().name) + ") is wrong");
      if (c.oneof_descriptor(o.proto().name) != &o) bad("lookup", "oneof lookup");
      mon::count("oneofs");
    }
    if (c.oneof_descriptor("no_such")) bad("lookup", "an unknown oneof was found");
  }
  void op_clear(Node &n) {
    const MsgDesc &dd = *n.x->d; if (!dd.nfields) return;
    auto os = n.m.descriptor().oneofs();
    if (os.size() && r.chance(1, 3)) {
      auto it = os.begin(); std::advance(it, (long)r.below(os.size())); note("clear-oneof " + pth() + "." + std::string((*it).proto().name)); n.m.clear_field(*it);
      for (auto &f : (*it).fields()) { int idx = -1; find_field(dd, (uint32_t)f.proto().number, &idx); n.x->f.erase(idx); }
      return;
    }
    int idx = (int)r.below((uint64_t)dd.nfields); const FieldDesc &f = dd.fields[idx]; note("clear-field " + pth() + "." + f.name);
    if (r.chance(1, 2)) n.m.clear_field(*n.m.field_descriptor_by_number(f.number)); else n.m.field_by_name(f.name)->reset();
    n.x->f.erase(idx);
  }
  void op_wrong_ref(Node &n) { // typed references of the wrong kind
    if (!n.x->d->nfields) return;
    int idx = (int)r.below((uint64_t)n.x->d->nfields); const FieldDesc &f = n.x->d->fields[idx]; note("typed-ref " + pth() + "." + f.name);
    auto one = [&](auto tag, Type t, bool rep) {
      using C = typename decltype(tag)::type; bool fits = f.type == t && (f.kind != Kind::ONE) == rep; if (is_msg(f) && (t == Type::MESSAGE)) fits = (f.kind != Kind::ONE) == rep;
      auto a = n.m.template typed_ref_by_name<C>(f.name); auto b = n.m.template typed_ref_by_number<C>(f.number); auto e = n.m.template typed_ref_by_name<C>("nope"); auto cc = n.m.template typed_ref_by_number<typename C::cref_type>(f.number); auto ccc = n.m.cref().template typed_ref_by_name<typename C::cref_type>(f.name);
      if (a.has_value() != fits || b.has_value() != fits || cc.has_value() != fits || ccc.has_value() != fits) bad("typed-ref", std::string("typed reference to ") + f.name + (fits ? " refused" : " of a wrong kind granted"));
      else if (!fits && (a.error() != dynamic_message_errc::invalid_field_type || b.error() != dynamic_message_errc::invalid_field_type || cc.error() != dynamic_message_errc::invalid_field_type)) bad("typed-ref", "error code");
      if (e || e.error() != dynamic_message_errc::no_such_field) bad("typed-ref", "an unknown field");
    };
    using namespace hp;
    one(std::type_identity<int32_field_mref>{}, Type::INT32, false); one(std::type_identity<sint32_field_mref>{}, Type::SINT32, false); one(std::type_identity<sfixed32_field_mref>{}, Type::SFIXED32, false);
    one(std::type_identity<uint64_field_mref>{}, Type::UINT64, false); one(std::type_identity<fixed64_field_mref>{}, Type::FIXED64, false); one(std::type_identity<double_field_mref>{}, Type::DOUBLE, false);
    one(std::type_identity<bool_field_mref>{}, Type::BOOL, false); one(std::type_identity<string_field_mref>{}, Type::STRING, false); one(std::type_identity<bytes_field_mref>{}, Type::BYTES, false); one(std::type_identity<enum_field_mref>{}, Type::ENUM, false);
    one(std::type_identity<message_field_mref>{}, Type::MESSAGE, false); one(std::type_identity<repeated_message_field_mref>{}, Type::MESSAGE, true); one(std::type_identity<repeated_int32_field_mref>{}, Type::INT32, true);
    one(std::type_identity<repeated_string_field_mref>{}, Type::STRING, true); one(std::type_identity<repeated_bytes_field_mref>{}, Type::BYTES, true); one(std::type_identity<repeated_enum_field_mref>{}, Type::ENUM, true); one(std::type_identity<repeated_bool_field_mref>{}, Type::BOOL, true);
  }
  // ------------------------------------------------------------ whole messages
  void op_object() {
    cur = (int)r.below(objs.size()); path.clear(); scope = -1; Obj14 &o = objs[cur]; size_t j = r.below(objs.size());
    Msg before = clone(o.model);
    if (r.chance(1, 8)) fuse = (long)r.below(12);
    try {
      switch (r.below(7)) {
      case 0: case 1: { note("clone " + std::to_string(cur) + " from " + std::to_string(j)); o.m->clone_from(objs[j].m->cref()); o.model = clone(objs[j].model); break; }
      case 2: { note("reset-message " + std::to_string(cur)); o.m->reset(); o.model.f.clear(); break; }
      case 3: { note("rebirth " + std::to_string(cur)); fuse = -1; o.birth(d); break; } // its arena goes away: the others must not notice
      case 4: { note("alias " + std::to_string(cur)); fuse = -1; Arena t; MV a = *factory().get_message(d.name, t); Msg g = gen(d, r, go); g.unk.clear(); dyn_set(a, g); a.alias_from(*o.m); same("alias", clone(o.model), read(a.cref(), d)); break; }
      case 5: { note("parse " + std::to_string(cur)); Msg g = gen(d, r, go); g.unk.clear(); std::string b = encode(g); auto s = std::string(stay(b)); int ec = (int)hp::read_binpb(*o.m, s).ec; if (ec) bad("parse", "a valid encoding was refused: " + std::to_string(ec)); Decoded dd = decode(d, b); o.model = read(o.m->cref(), d); Msg x = clone(o.model); canon(x); DecodeOpts no; no.drop = true; Msg w = decode(d, b, no).m; canon(w); if (!(x == w)) bad("parse", "parsed into a used message: " + diff(w, x)); break; }
      default: { note("write " + std::to_string(cur)); fuse = -1; std::string out; int ec = (int)hp::write_binpb(o.m->cref(), out).ec; if (ec) { bad("write", "status " + std::to_string(ec)); break; }
        DecodeOpts no; no.drop = true; no.utf8 = false; Decoded w = decode(d, out, no); Msg x = clone(o.model); canon(x); canon(w.m); if (w.v == REJECT || !(w.m == x)) bad("write", "the encoding is not of the message: " + diff(x, w.m)); mon::count("writes"); }
      }
    } catch (const std::bad_alloc &) { recover(before); }
    fuse = -1;
  }
  void run(int steps) {
    for (int i = 0; i < steps && !dead; ++i) {
      if (r.chance(1, 8)) op_object();
      else {
        auto n = pick(); if (!n || dead) return;
        switch (r.below(10)) {
        case 0: case 1: case 2: case 3: op_set(*n); break;
        case 4: case 5: case 6: op_typed(*n); break;
        case 7: op_get(*n); break;
        case 8: r.chance(1, 3) ? op_clear(*n) : op_get(*n); break;
        default: r.chance(1, 6) ? op_wrong_ref(*n) : op_meta(*n);
        }
      }
      mon::count("steps");
      if (!dead && !check()) return;
    }
  }
};
} // namespace
} // namespace ref

int main(int argc, char **argv) {
  using namespace ref;
  mon::init(argc, argv);
  std::vector<int> ids; for (int i = 0; i < (int)std::size(g_msgs); ++i) if (!g_msgs[i].map_entry) ids.push_back(i);
  for (uint64_t c = mon::g.shard; c < mon::g.cases; c += mon::g.nshards) {
    const MsgDesc &d = g_msgs[ids[(c / mon::g.nshards) % ids.size()]];
    mon::begin(("history " + std::to_string(c) + " of " + d.name).c_str());
    Run run(mon::g.seed * 1000003 + c, d);
    run.run(20 + (int)(c * 2654435761u >> 9) % 80);
    if (c < 3) mon::sample(std::string(d.name) + ": " + run.trace.substr(0, 500));
    mon::count("histories");
  }
  return mon::finish();
}
