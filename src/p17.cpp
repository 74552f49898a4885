// P17: stdext::flat_map against std::map, operation by operation, with injected exceptions.
#include "mon.hpp"
#include "ref.hpp"
#include <hpp_proto/flat_map.hpp>
#include <cmath>
#include <deque>
#include <memory>
#include <memory_resource>
#include <optional>

using ref::Rng;
namespace {
bool chance(Rng &r, int n) { return r.below(n) == 0; }
struct Boom {};
long fuse = -1;          // throws when it reaches 0
uint64_t fused = 0;
void burn() { if (fuse >= 0 && fuse-- == 0) { ++fused; throw Boom{}; } }
std::set<const void *> ledger; // live tracked objects
uint64_t cmps = 0;

// an element type whose copies and comparisons throw on demand; it owns memory and registers its lifetime
struct T {
  int *p;
  static int *mk(int v) { return new int(v); }
  void reg() { if (!ledger.insert(this).second) mon::fail("p17:lifetime", "an object was constructed over a live one"); }
  T() : p(mk(0)) { reg(); }
  T(int v) : p(mk(v)) { reg(); }
  T(const T &o) { burn(); p = mk(*o.p); reg(); }
  T(T &&o) noexcept : p(std::exchange(o.p, nullptr)) { reg(); }
  T &operator=(const T &o) { burn(); int *n = mk(*o.p); delete p; p = n; live(); return *this; }
  T &operator=(T &&o) noexcept { if (this != &o) { delete p; p = std::exchange(o.p, nullptr); } live(); return *this; }
  ~T() { if (!ledger.erase(this)) mon::fail("p17:lifetime", "an object was destroyed that was not alive"); delete p; }
  void live() const { if (!ledger.count(this)) mon::fail("p17:lifetime", "assignment to an object that is not alive"); }
  int get() const { return p ? *p : -99999; }
  friend bool operator==(const T &a, const T &b) { return a.get() == b.get(); }
  friend bool operator<(const T &a, const T &b) { return a.get() < b.get(); }
};
using UP = std::unique_ptr<int>;
template <class V> V mk(int v) {
  if constexpr (std::is_same_v<V, int>) return v;
  else if constexpr (std::is_same_v<V, std::string>) return v < 0 ? "-" + std::string(30, 'x') + std::to_string(v) : std::string(v % 3 ? 25 : 0, 'k') + std::to_string(v);
  else if constexpr (std::is_same_v<V, UP>) return std::make_unique<int>(v);
  else if constexpr (std::is_same_v<V, bool>) return v & 1;
  else return V(v);
}
int val(int v) { return v; }
int val(const std::string &s) { size_t i = 0; bool neg = false; if (!s.empty() && s[0] == '-') neg = true; while (i < s.size() && !(s[i] >= '0' && s[i] <= '9')) ++i; return i == s.size() ? -99999 : std::atoi(s.c_str() + i) * (neg ? -1 : 1); }
int val(const UP &p) { return p ? *p : -99999; }
int val(const T &t) { return t.get(); }

// comparators; each works on elements, on ints (the model) and, when transparent, on both
struct Less { template <class A, class B> bool operator()(const A &a, const B &b) const { ++cmps; burn(); return val(a) < val(b); } };
struct Greater { template <class A, class B> bool operator()(const A &a, const B &b) const { ++cmps; burn(); return val(a) > val(b); } };
struct LessT : Less { using is_transparent = void; };
struct Mod { // stateful: orders by the remainder, then equal remainders are equivalent
  int m = 7;
  using is_transparent = void;
  template <class A, class B> bool operator()(const A &a, const B &b) const { ++cmps; burn(); return ((val(a) % m) + m) % m < ((val(b) % m) + m) % m; }
};
template <class C> C mkcmp(Rng &r) { if constexpr (std::is_same_v<C, Mod>) return Mod{(int)(2 + r.below(30))}; else { (void)r; return C{}; } }

struct CountingResource : std::pmr::memory_resource {
  std::map<void *, size_t> live; uint64_t allocs = 0;
  void *do_allocate(size_t n, size_t a) override { void *p = ::operator new(n, std::align_val_t(a)); live[p] = n; ++allocs; return p; }
  void do_deallocate(void *p, size_t n, size_t a) override {
    auto it = live.find(p);
    if (it == live.end() || it->second != n) { mon::fail("p17:allocator", "memory given back to a resource that did not provide it"); return; }
    live.erase(it); ::operator delete(p, std::align_val_t(a));
  }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
CountingResource dflt, other;

template <class FM> struct Sut {
  using K = typename FM::key_type; using V = typename FM::mapped_type; using C = typename FM::key_compare;
  using KC = typename FM::key_container_type; using VC = typename FM::mapped_container_type;
  struct MC { C c; MC(C x = {}) : c(x) {} bool operator()(int a, int b) const { long k = fuse; fuse = -1; bool x = c(a, b); fuse = k; return x; } };
  using Model = std::map<int, int, MC>;
  C mc() { return m.key_comp().c; }
  static constexpr bool copyable = std::is_copy_constructible_v<V>;
  static constexpr bool pmr = std::is_same_v<typename KC::allocator_type, std::pmr::polymorphic_allocator<K>>;
  static constexpr bool throwing = std::is_same_v<K, T> || std::is_same_v<V, T>;
  const char *name; Rng r; int space;
  std::string trace;
  std::optional<FM> f; Model m;
  explicit Sut(const char *n, uint64_t seed) : name(n), r(seed) {
    static const int spaces[] = {3, 8, 40, 1000};
    space = spaces[r.below(4)];
    C c = mkcmp<C>(r); m = Model(MC{c});
    if constexpr (pmr) f.emplace(c, std::pmr::polymorphic_allocator<std::byte>(&other)); else f.emplace(c);
  }
  int key() { return (int)r.below(space) - (chance(r, 4) ? space / 2 : 0); }
  int value() { return (int)r.below(1000000); }
  void bad(const std::string &what, const std::string &d) { mon::fail("p17:" + what + ":" + name, d + "\nhistory: " + (trace.size() > 3000 ? "..." + trace.substr(trace.size() - 3000) : trace)); }
  std::string dump() { std::string o; for (size_t i = 0; i < f->keys().size() && i < 60; ++i) o += std::to_string(val(f->keys()[i])) + ":" + (i < f->values().size() ? std::to_string(val(f->values()[i])) : "?") + " "; o += "| model: "; int n = 0; for (auto &[k, v] : m) { if (++n > 60) break; o += std::to_string(k) + ":" + std::to_string(v) + " "; } return o; }
  // invariants that hold at all times
  bool invariants(const char *when) {
    fuse = -1;
    const auto &ks = f->keys(); const auto &vs = f->values();
    if (ks.size() != vs.size()) { bad("unpaired", std::string(when) + ": " + std::to_string(ks.size()) + " keys and " + std::to_string(vs.size()) + " values"); return false; }
    C c = mc();
    for (size_t i = 1; i < ks.size(); ++i) if (!c(ks[i - 1], ks[i])) { bad("unsorted", std::string(when) + ": keys not strictly increasing at " + std::to_string(i) + ": " + dump()); return false; }
    if constexpr (pmr) {
      if (ks.get_allocator().resource() != (std::pmr::memory_resource *)&other || vs.get_allocator().resource() != (std::pmr::memory_resource *)&other) { bad("allocator", std::string(when) + ": the containers changed their memory resource"); return false; }
    }
    return true;
  }
  bool same(const char *when) {
    if (!invariants(when)) return false;
    bool ok = f->size() == m.size() && f->empty() == m.empty();
    size_t i = 0;
    for (auto &[k, v] : m) { if (!ok || i >= f->keys().size()) { ok = false; break; } ok = val(f->keys()[i]) == k && val(f->values()[i]) == v; ++i; }
    if (!ok) bad("contents", std::string(when) + ": " + dump());
    return ok;
  }
  void resync() { m.clear(); for (size_t i = 0; i < f->keys().size(); ++i) m.emplace(val(f->keys()[i]), val(f->values()[i])); }
  bool iteration() {
    bool ok = true; const FM &cf = *f;
    auto chk = [&](bool b, const char *what) { if (!b && ok) { ok = false; bad("iteration", std::string(what) + ": " + dump()); } };
    { auto mi = m.begin(); for (auto it = f->begin(); it != f->end(); ++it, ++mi) { chk(mi != m.end() && val(it->first) == mi->first && val((*it).second) == mi->second, "begin..end"); if (!ok) return false; } chk(mi == m.end(), "begin..end length"); }
    { auto mi = m.begin(); for (auto it = cf.begin(); it != cf.end(); it++, ++mi) { chk(mi != m.end() && val(it->first) == mi->first && val(it->second) == mi->second, "const begin..end"); if (!ok) return false; } chk(mi == m.end(), "const length"); }
    { auto mi = m.rbegin(); for (auto it = f->rbegin(); it != f->rend(); ++it, ++mi) { chk(mi != m.rend() && val((*it).first) == mi->first && val((*it).second) == mi->second, "rbegin..rend"); if (!ok) return false; } chk(mi == m.rend(), "rbegin length"); }
    { auto mi = m.rbegin(); if (cf.crend() - cf.crbegin() != (ptrdiff_t)m.size()) chk(false, "crbegin..crend length"); else for (auto it = cf.crbegin(); it != cf.crend(); ++it, ++mi) { chk(val((*it).first) == mi->first && val((*it).second) == mi->second, "crbegin..crend"); if (!ok) return false; } }
    { auto mi = m.rbegin(); for (auto it = cf.rbegin(); it != cf.rend(); ++it, ++mi) { chk(mi != m.rend() && val((*it).first) == mi->first, "const rbegin..rend"); if (!ok) return false; } }
    if (cf.cend() - cf.cbegin() != (ptrdiff_t)m.size() || f->end() - f->begin() != (ptrdiff_t)m.size()) chk(false, "iterator difference");
    if (!m.empty()) {
      size_t i = r.below(m.size()), j = r.below(m.size());
      auto mi = std::next(m.begin(), i);
      chk(val((f->begin() + i)->first) == mi->first && val(f->begin()[i].second) == mi->second && val((i + cf.cbegin())->first) == mi->first, "random access");
      auto a = f->begin() + i, b = f->begin() + j; typename FM::const_iterator ca = a;
      chk((a < b) == (i < j) && (a <= b) == (i <= j) && (a > b) == (i > j) && (a >= b) == (i >= j) && (a == b) == (i == j) && (a != b) == (i != j) && b - a == (ptrdiff_t)j - (ptrdiff_t)i, "iterator comparison");
      chk(ca == cf.begin() + i && val((f->end() - (m.size() - i))->first) == mi->first, "iterator conversion");
      auto e = a; e += (ptrdiff_t)j - (ptrdiff_t)i; chk(e == b, "+="); e -= (ptrdiff_t)j - (ptrdiff_t)i; chk(e == a, "-="); chk(e-- == a && (i == 0 || ++e == a || true), "--");
    }
    mon::count("iterations-compared");
    return ok;
  }
  template <class Q> bool lookup1(const Q &q, int k, const char *kind) {
    const FM &cf = *f; bool ok = true;
    auto pos = [&](auto it) { return (size_t)std::distance(m.begin(), it); };
    auto mlo = pos(m.lower_bound(k)), mhi = pos(m.upper_bound(k)); bool has = m.count(k);
    auto chk = [&](bool b, const char *what) { if (!b && ok) { ok = false; bad(std::string("lookup:") + what, std::string(kind) + " key " + std::to_string(k) + ": " + dump()); } };
    size_t n = m.size(), fnd = has ? mlo : n;
    chk((size_t)(f->find(q) - f->begin()) == fnd, "find"); chk((size_t)(cf.find(q) - cf.begin()) == fnd, "const find");
    chk(f->count(q) == (has ? 1u : 0u), "count"); chk(f->contains(q) == has, "contains");
    chk((size_t)(f->lower_bound(q) - f->begin()) == mlo && (size_t)(cf.lower_bound(q) - cf.begin()) == mlo, "lower_bound");
    chk((size_t)(f->upper_bound(q) - f->begin()) == mhi && (size_t)(cf.upper_bound(q) - cf.begin()) == mhi, "upper_bound");
    auto e = f->equal_range(q); auto ce = cf.equal_range(q);
    chk((size_t)(e.first - f->begin()) == mlo && (size_t)(e.second - f->begin()) == mhi && (size_t)(ce.first - cf.begin()) == mlo && (size_t)(ce.second - cf.begin()) == mhi, "equal_range");
    if (has) { auto it = f->find(q); chk(val(it->second) == m.find(k)->second, "paired value"); }
    if constexpr (std::is_same_v<Q, K>) {
      try { int v = val(f->at(q)); chk(has && v == m.find(k)->second, "at"); } catch (std::out_of_range &) { chk(!has, "at"); }
      try { int v = val(cf.at(q)); chk(has && v == m.find(k)->second, "const at"); } catch (std::out_of_range &) { chk(!has, "const at"); }
    }
    mon::count("lookups");
    return ok;
  }
  bool lookup() {
    int k = key();
    if (!lookup1(mk<K>(k), k, "own")) return false;
    if constexpr (requires { typename C::is_transparent; } && !std::is_same_v<K, int>) if (!lookup1(k, k, "heterogeneous")) return false;
    // comparator objects
    int a = key(), b = key();
    if (f->key_comp()(a, b) != m.key_comp()(a, b)) { bad("comparator", "key_comp differs"); return false; }
    if (m.size() >= 2) { auto x = *f->cbegin(), y = *(f->cbegin() + 1); if (!f->value_comp()(x, y) || f->value_comp()(y, x)) { bad("comparator", "value_comp differs"); return false; } }
    return true;
  }
  bool compare() {
    if constexpr (copyable && requires(const V &a, const V &b) { a < b; }) {
      FM g = fresh(mc()); g = *f;
      if (chance(r, 2) && g.size()) { auto it = g.begin() + r.below(g.size()); if (chance(r, 2)) g.erase(it); else it->second = mk<V>(value()); }
      std::vector<std::pair<K, V>> a, b; for (auto it = f->begin(); it != f->end(); ++it) a.emplace_back(it->first, it->second); for (auto it = g.begin(); it != g.end(); ++it) b.emplace_back(it->first, it->second);
      bool eq = a == b, lt = a < b, gt = b < a;
      if ((*f == g) != eq || (*f != g) == eq || (*f < g) != lt || (*f > g) != gt || (*f <= g) == gt || (*f >= g) == lt) { bad("comparison", dump()); return false; }
    }
    return true;
  }
  using Pairs = std::vector<std::pair<int, int>>;
  Pairs pairs(bool sorted_unique = false) {
    Pairs ps; size_t n = chance(r, 6) ? r.below(300) : r.below(12);
    if (sorted_unique) { Model t(m.key_comp()); for (size_t i = 0; i < n; ++i) t.emplace(key(), value()); for (auto &[k, v] : t) ps.emplace_back(k, v); }
    else for (size_t i = 0; i < n; ++i) ps.emplace_back(key(), value());
    return ps;
  }
  std::string sh(const Pairs &ps) { std::string o; for (size_t i = 0; i < ps.size() && i < 40; ++i) o += std::to_string(ps[i].first) + ":" + std::to_string(ps[i].second) + ","; return o; }
  auto elems(const Pairs &ps) { std::vector<std::pair<K, V>> o; for (auto &[k, v] : ps) o.emplace_back(mk<K>(k), mk<V>(v)); return o; }
  // a newly built map must hold exactly the distinct keys of ps, each with one of its values
  bool check_bulk(FM &g, const Pairs &ps, const char *how, const C &c) {
    long keep = fuse; fuse = -1;
    std::map<int, std::vector<std::pair<int, int>>, MC> want(MC{c}); for (auto &p : ps) want[p.first].push_back(p);
    bool ok = g.size() == want.size() && g.values().size() == g.keys().size(); size_t i = 0;
    if (ok) for (auto &[k, cand] : want) { bool hit = false; for (auto &p : cand) hit |= val(g.keys()[i]) == p.first && val(g.values()[i]) == p.second; if (!hit) { ok = false; break; } ++i; }
    if (!ok) { std::string d; for (size_t j = 0; j < g.keys().size() && j < 60; ++j) d += std::to_string(val(g.keys()[j])) + ":" + (j < g.values().size() ? std::to_string(val(g.values()[j])) : "?") + " "; bad("bulk", std::string(how) + " from " + sh(ps) + " gave " + d); }
    fuse = keep; mon::count("bulk-constructions");
    return ok;
  }
  template <class X> X cont(const Pairs &ps, bool keys) {
    X c = [&] { if constexpr (pmr) return X(&other); else return X(); }();
    for (auto &p : ps) c.push_back(mk<typename X::value_type>(keys ? p.first : p.second));
    return c;
  }
  FM fresh(const C &c) { if constexpr (pmr) return FM(c, std::pmr::polymorphic_allocator<std::byte>(&other)); else return FM(c); }

  bool step() {
    int k = key(), v = value(); size_t n = m.size();
    auto hint = [&]() -> size_t { return r.below(n + 1); };
    std::pair<typename Model::iterator, bool> mr;
    int op = r.below(40); int variant = r.below(4);
    char line[96]; std::snprintf(line, sizeof line, "%d.%d(%d,%d) ", op, variant, k, v); trace += line; if (trace.size() > 20000) trace.erase(0, 10000);
    bool inject = throwing && chance(r, 3);
    Model before = m;
    Pairs args{{k, v}}, ps;
    auto ret = [&](auto fr, auto mrr, const char *what) { // iterator and flag of single-element operations
      fuse = -1;
      if (fr.second != mrr.second || (size_t)(fr.first - f->begin()) != (size_t)std::distance(m.begin(), mrr.first)) bad("return", std::string(what) + " flag " + std::to_string(fr.second) + " want " + std::to_string(mrr.second) + " pos " + std::to_string(fr.first - f->begin()));
    };
    auto rit = [&](auto it, auto mit, const char *what) { fuse = -1; if ((size_t)(it - f->begin()) != (size_t)std::distance(m.begin(), mit)) bad("return", std::string(what) + ": wrong position " + std::to_string(it - f->begin())); };
    bool exact = true; // strong expectation: the model applies when nothing was thrown
    try {
      if (op <= 3) { // insert
        K kk = mk<K>(k); V vv = mk<V>(v); 
        if constexpr (copyable) {
          if (variant == 0) { typename FM::value_type p(kk, vv); arm(inject); auto x = f->insert(p); mr = m.insert({k, v}); ret(x, mr, "insert(const&)"); }
          else if (variant == 1) { typename FM::value_type p(kk, vv); arm(inject); auto x = f->insert(std::move(p)); mr = m.insert({k, v}); ret(x, mr, "insert(&&)"); }
          else if (variant == 2) { std::pair<K, V> p(std::move(kk), std::move(vv)); arm(inject); auto x = f->insert(std::move(p)); mr = m.insert({k, v}); ret(x, mr, "insert(P&&)"); }
          else { typename FM::value_type p(kk, vv); arm(inject); auto x = f->insert(f->cbegin() + hint(), p); mr = m.insert({k, v}); rit(x, mr.first, "insert(hint)"); }
        } else { std::pair<K, V> p(std::move(kk), std::move(vv)); auto x = variant & 1 ? f->insert(std::move(p)) : std::make_pair(f->insert(f->cbegin() + hint(), std::move(p)), m.count(k) == 0); mr = m.insert({k, v}); ret(x, mr, "insert(P&&)"); }
      } else if (op <= 6) {
        K kk = mk<K>(k); V vv = mk<V>(v); arm(inject);
        if (variant < 2) { auto x = f->emplace(std::move(kk), std::move(vv)); mr = m.emplace(k, v); ret(x, mr, "emplace"); }
        else { auto x = f->emplace_hint(f->cbegin() + hint(), std::move(kk), std::move(vv)); mr = m.emplace(k, v); rit(x, mr.first, "emplace_hint"); }
      } else if (op <= 9) {
        K kk = mk<K>(k); V vv = mk<V>(v); arm(inject);
        if (variant == 0) { auto x = f->try_emplace(kk, std::move(vv)); mr = m.try_emplace(k, v); ret(x, mr, "try_emplace"); if (!mr.second && val(vv) != v) bad("consumed", "try_emplace took its argument without inserting"); }
        else if (variant == 1) { auto x = f->try_emplace(std::move(kk), std::move(vv)); mr = m.try_emplace(k, v); ret(x, mr, "try_emplace(&&)"); if (!mr.second && (val(vv) != v || val(kk) != k)) bad("consumed", "try_emplace took its arguments without inserting"); }
        else if (variant == 2) { auto x = f->try_emplace(f->cbegin() + hint(), kk, std::move(vv)); mr = m.try_emplace(k, v); rit(x, mr.first, "try_emplace(hint)"); if (!mr.second && val(vv) != v) bad("consumed", "try_emplace(hint) took its argument without inserting"); }
        else { auto x = f->try_emplace(f->cbegin() + hint(), std::move(kk), std::move(vv)); mr = m.try_emplace(k, v); rit(x, mr.first, "try_emplace(hint&&)"); }
      } else if (op <= 14) {
        K kk = mk<K>(k); V vv = mk<V>(v); arm(inject);
        if (variant == 0) { auto x = f->insert_or_assign(kk, std::move(vv)); mr = m.insert_or_assign(k, v); ret(x, mr, "insert_or_assign"); }
        else if (variant == 1) { auto x = f->insert_or_assign(std::move(kk), std::move(vv)); mr = m.insert_or_assign(k, v); ret(x, mr, "insert_or_assign(&&)"); }
        else if (variant == 2) { auto x = f->insert_or_assign(f->cbegin() + hint(), kk, std::move(vv)); mr = m.insert_or_assign(k, v); rit(x, mr.first, "insert_or_assign(hint)"); }
        else { auto x = f->insert_or_assign(f->cbegin() + hint(), std::move(kk), std::move(vv)); mr = m.insert_or_assign(k, v); rit(x, mr.first, "insert_or_assign(hint&&)"); }
      } else if (op <= 16) {
        if constexpr (std::is_default_constructible_v<V>) {
          K kk = mk<K>(k); V vv = mk<V>(v); arm(inject);
          if (variant & 1) (*f)[kk] = std::move(vv); else (*f)[std::move(kk)] = std::move(vv);
          m[k] = v;
        }
      } else if (op <= 20) { // erase
        if (variant == 0) { K kk = mk<K>(k); arm(inject); auto x = f->erase(kk); auto y = m.erase(k); fuse = -1; if (x != y) bad("return", "erase(key)"); }
        else if (n && variant == 1) { size_t i = r.below(n); arm(inject); auto x = f->erase(f->begin() + i); auto y = m.erase(std::next(m.begin(), i)); rit(x, y, "erase(iterator)"); }
        else if (n && variant == 2) { size_t i = r.below(n); arm(inject); auto x = f->erase(f->cbegin() + i); auto y = m.erase(std::next(m.begin(), i)); rit(x, y, "erase(const_iterator)"); }
        else if (n) { size_t i = r.below(n + 1), j = chance(r, 3) ? i + r.below(n + 1 - i) : std::min(n, i + r.below(4)); arm(inject); auto x = f->erase(f->cbegin() + i, f->cbegin() + j); auto y = m.erase(std::next(m.begin(), i), std::next(m.begin(), j)); rit(x, y, "erase(range)"); }
      } else if (op == 21) { ps = pairs(); args = ps; if constexpr (copyable) { auto el = elems(ps); arm(inject); f->insert(el.begin(), el.end()); for (auto &p : ps) m.insert(p); } }
      else if (op == 22) { ps = pairs(true); args = ps; if constexpr (copyable) { auto el = elems(ps); arm(inject); f->insert(stdext::sorted_unique, el.begin(), el.end()); for (auto &p : ps) m.insert(p); } }
      else if (op == 23) { if constexpr (copyable) { int k2 = key(); args = {{k, v}, {k2, v + 1}, {k, v + 2}}; std::initializer_list<typename FM::value_type> il{{mk<K>(k), mk<V>(v)}, {mk<K>(k2), mk<V>(v + 1)}, {mk<K>(k), mk<V>(v + 2)}}; arm(inject); if (variant & 1) { *f = il; m.clear(); } else f->insert(il); for (auto &p : args) m.insert(p); } }
      else if (op <= 28) { // bulk construction, then adopted by move assignment
        C c = mkcmp<C>(r); ps = pairs(variant == 3); args = ps; auto el = elems(ps);
        std::optional<FM> g; const char *how = "";
        KC kc = cont<KC>(ps, true); VC vc = cont<VC>(ps, false);
        std::pmr::polymorphic_allocator<std::byte> al(&other);
        arm(inject);
        if (op == 24) { c = C{}; how = "containers"; if constexpr (pmr) { if (variant == 1) g.emplace(std::move(kc), std::move(vc), al); else if (variant == 3 && std::is_empty_v<C>) g.emplace(stdext::sorted_unique, std::move(kc), std::move(vc), al); else g.emplace(std::move(kc), std::move(vc)); } else if (variant == 3 && std::is_empty_v<C>) g.emplace(stdext::sorted_unique, std::move(kc), std::move(vc)); else g.emplace(std::move(kc), std::move(vc)); }
        else if constexpr (copyable) {
          if (op == 25) { how = "range"; if constexpr (pmr) g.emplace(el.begin(), el.end(), c, al); else g.emplace(el.begin(), el.end(), c); }
          else if (op == 26 && variant == 3 && std::is_empty_v<C>) { how = "sorted_unique range"; if constexpr (pmr) g.emplace(stdext::sorted_unique, el.begin(), el.end(), c, al); else g.emplace(stdext::sorted_unique, el.begin(), el.end(), c); }
          else if (op == 26) { how = "range without comparator"; c = C{}; if constexpr (pmr) g.emplace(el.begin(), el.end(), al); else g.emplace(el.begin(), el.end()); }
          else if (op == 27) { how = "initializer list"; fuse = -1; int k2 = key(); ps = args = {{k, v}, {k2, v + 1}, {k, v + 2}}; std::initializer_list<typename FM::value_type> il{{mk<K>(k), mk<V>(v)}, {mk<K>(k2), mk<V>(v + 1)}, {mk<K>(k), mk<V>(v + 2)}}; arm(inject); if constexpr (pmr) g.emplace(il, c, al); else g.emplace(il, c); }
          else { how = "copy"; fuse = -1; FM h = fresh(c); for (auto &p : ps) h.insert_or_assign(mk<K>(p.first), mk<V>(p.second)); ps.clear(); for (size_t i = 0; i < h.keys().size(); ++i) ps.emplace_back(val(h.keys()[i]), val(h.values()[i])); arm(inject); if constexpr (pmr) g.emplace(h, al); else { if (variant & 1) g.emplace(h); else { g.emplace(fresh(C{})); *g = h; } } }
        }
        if (g) {
          fuse = -1;
          if (!check_bulk(*g, ps, how, c)) return false;
          Model nm(MC{c}); for (size_t i = 0; i < g->keys().size(); ++i) nm.emplace(val(g->keys()[i]), val(g->values()[i]));
          if (variant == 1) { f->swap(*g); } else if (variant == 2) { using std::swap; swap(*f, *g); } else { *f = std::move(*g); }
          m = nm;
        }
      } else if (op == 29) { // copy and move construction
        if constexpr (copyable) {
          arm(inject);
          if (variant == 0) { if constexpr (pmr) { FM g(*f, std::pmr::polymorphic_allocator<std::byte>(&other)); fuse = -1; f->clear(); *f = std::move(g); } else { FM g(*f); fuse = -1; f->clear(); f->swap(g); } }
          else if (variant == 1) { FM g(std::move(*f)); fuse = -1; if (g.size() != m.size()) bad("contents", "move construction"); *f = std::move(g); }
          else if (variant == 2) { FM g = fresh(mc()); g = *f; fuse = -1; *f = std::move(g); }
          else { *f = static_cast<const FM &>(*f); }
        }
      } else if (op == 30) { // extract and replace
        auto c = std::move(*f).extract();
        if (!f->empty() || !f->values().empty()) bad("extract", "the map is not empty afterwards");
        if (c.keys.size() != m.size() || c.values.size() != m.size()) bad("extract", "sizes");
        else if (variant < 3) f->replace(std::move(c.keys), std::move(c.values));
        else m.clear();
      } else if (op == 31 && chance(r, 4)) { f->clear(); m.clear(); if (!f->empty()) bad("contents", "clear"); }
      else if (op == 32) { // writing through references
        if (n) { size_t i = r.below(n); auto mi = std::next(m.begin(), i); mi->second = v; if (variant == 0) (f->begin() + i)->second = mk<V>(v); else if (variant == 1) f->at(mk<K>(mi->first)) = mk<V>(v); else if (variant == 2) (*(f->begin() + i)).second = mk<V>(v); else f->find(mk<K>(mi->first))->second = mk<V>(v); }
      } else if (op == 33) { fuse = -1; return iteration(); }
      else if (op == 34) { return compare(); }
      else if (op == 35) { // arguments that alias elements
        if constexpr (copyable) if (n) { size_t i = r.below(n); auto mi = std::next(m.begin(), i); int mv = mi->second; arm(inject); if (variant & 1) { auto x = f->try_emplace(mk<K>(k), (f->begin() + i)->second); (void)x; m.try_emplace(k, mv); args = {{k, mv}}; } else { K kk = mk<K>(mi->first); f->insert_or_assign(kk, (f->begin() + i)->second); } }
      } else return lookup();
      (void)exact;
    } catch (Boom &) {
      fuse = -1; mon::count("exceptions-injected");
      if (!invariants("after an exception")) return false;
      // whatever is there was there before or was being inserted
      for (size_t i = 0; i < f->keys().size(); ++i) {
        int a = val(f->keys()[i]), b = val(f->values()[i]); bool hit = false;
        auto it = before.find(a); if (it != before.end() && it->first == a && it->second == b) hit = true;
        if (!hit) for (auto &p : args) if (p.first == a && p.second == b) hit = true;
        if (!hit && it != before.end() && it->first == a) for (auto &p : args) if (p.second == b) hit = true; // value assigned to an equivalent key
        if (!hit && op == 35) { for (auto &[x, y] : before) if (y == b) hit = true; }
        if (!hit && (op == 15 || op == 16) && a == k) hit = true; // operator[] inserted, the assignment threw
        if (!hit) { bad("after-exception", "element " + std::to_string(a) + ":" + std::to_string(b) + " was neither there before nor inserted: " + dump()); return false; }
      }
      m = Model(MC{f->key_comp()}); resync();
      return true;
    }
    fuse = -1;
    char w[48]; std::snprintf(w, sizeof w, "after op %d.%d", op, variant);
    mon::count("ops:" + std::to_string(op));
    return same(w);
  }
  void arm(bool on) { if (on) fuse = (long)r.below(chance(r, 3) ? 60 : 8); }
  static void run(const char *name, uint64_t seed, int steps) {
    mon::begin((std::string("history of ") + name + " seed=" + std::to_string(seed)).c_str());
    {
      Sut s(name, seed);
      std::string st;
      for (int i = 0; i < steps; ++i) { if (!s.step()) break; st += (char)s.m.size(); }
      mon::seen(name, s.trace);
      mon::count("steps", steps);
      if (seed % 97 == 3) mon::sample(std::string(name) + ": " + s.trace.substr(0, 300));
    }
    fuse = -1;
    if (!ledger.empty()) { mon::fail(std::string("p17:leak:") + name, std::to_string(ledger.size()) + " elements outlive their map"); ledger.clear(); }
    if (!other.live.empty() || !dflt.live.empty()) { mon::fail(std::string("p17:leak:") + name, "memory outlives its map"); other.live.clear(); dflt.live.clear(); }
    if (dflt.allocs) { mon::fail(std::string("p17:allocator:") + name, "memory came from the default resource"); dflt.allocs = 0; }
  }
};

void bulk(Rng &r, size_t n, int kind) {
  mon::begin(("bulk construction kind=" + std::to_string(kind) + " n=" + std::to_string(n)).c_str());
  std::vector<int> k(n), v(n);
  for (size_t i = 0; i < n; ++i) { v[i] = (int)i; switch (kind) { case 0: k[i] = 5; break; case 1: k[i] = (int)r.below(3); break; case 2: k[i] = (int)i; break; case 3: k[i] = (int)(n - i); break; case 4: k[i] = (int)r.below(n); break; default: k[i] = (int)(i % 1000); } }
  std::map<int, int> distinct; for (size_t i = 0; i < n; ++i) distinct[k[i]]++;
  auto ks = k; cmps = 0;
  stdext::flat_map<int, int, Less> m(std::move(k), std::move(v));
  double lim = 60.0 * n * (std::log2((double)n) + 1) + 100;
  if (cmps > lim) mon::fail("p17:quadratic:" + std::to_string(kind), std::to_string(cmps) + " comparisons for " + std::to_string(n) + " elements");
  bool ok = m.size() == distinct.size() && m.keys().size() == m.values().size(); size_t i = 0;
  if (ok) for (auto &[key, c] : distinct) { if (m.keys()[i] != key || ks[m.values()[i]] != key) { ok = false; break; } ++i; }
  if (!ok) mon::fail("p17:large-bulk:" + std::to_string(kind), "n=" + std::to_string(n) + ": wrong keys or a value paired with another key");
  mon::count("large-bulk"); mon::seen("bulk", std::to_string(n) + "/" + std::to_string(kind));
}
} // namespace

int main(int argc, char **argv) {
  mon::init(argc, argv);
  std::pmr::set_default_resource(&dflt);
  using stdext::flat_map;
  for (uint64_t c = mon::g.shard; c < mon::g.cases; c += mon::g.nshards) {
    uint64_t s = mon::g.seed * 1000003 + c; int steps = 20 + (int)((s * 2654435761u >> 7) % 120);
    switch (c / mon::g.nshards % 10) {
    case 0: Sut<flat_map<int, int>>::run("int", s, steps); break;
    case 1: Sut<flat_map<int, int, Greater, std::deque<int>, std::vector<int>>>::run("int/greater/deque", s, steps); break;
    case 2: Sut<flat_map<std::string, std::string, LessT>>::run("string/transparent", s, steps); break;
    case 3: Sut<flat_map<T, T, Less>>::run("throwing", s, steps); break;
    case 4: Sut<flat_map<T, T, Mod, std::deque<T>, std::deque<T>>>::run("throwing/stateful/deque", s, steps); break;
    case 5: Sut<flat_map<T, T, LessT, std::pmr::vector<T>, std::pmr::vector<T>>>::run("throwing/pmr", s, steps); break;
    case 6: Sut<flat_map<std::string, UP, LessT>>::run("move-only", s, steps); break;
    case 7: Sut<flat_map<int, T, Mod>>::run("int/throwing/stateful", s, steps); break;
    case 8: Sut<flat_map<int, std::string, Less, std::pmr::vector<int>, std::pmr::vector<std::string>>>::run("int/string/pmr", s, steps); break;
    default: Sut<flat_map<T, int, Greater>>::run("throwing/int/greater", s, steps); break;
    }
  }
  Rng r(mon::g.seed * 31 + mon::g.shard);
  for (int kind = 0; kind < 6; ++kind) if (kind % mon::g.nshards == mon::g.shard || mon::g.nshards < 6) for (size_t n : {7, 100, 5000, mon::g.thorough ? 600000 : 60000}) bulk(r, n, kind);
  mon::count("faults", fused);
  return mon::finish();
}
