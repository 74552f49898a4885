// P18: indirect, optional_indirect and their views as value types, against plain trees, with allocator ledgers,
// aliasing assignments and injected construction and allocation failures.
#include "mon.hpp"
#include "ref.hpp"
#include <hpp_proto/field_types.hpp>
#include <memory_resource>
#include <optional>
#include <vector>

using ref::Rng;
namespace {
struct Boom {};
long fuse = -1; uint64_t fused = 0, copies = 0;
void burn() { if (fuse >= 0 && fuse-- == 0) { ++fused; throw Boom{}; } }
struct Block { int id; size_t n; };
std::map<void *, Block> ledger;
void *take(int id, size_t n) { burn(); void *p = ::operator new(n); ledger[p] = {id, n}; return p; }
void give(int id, void *p, size_t n) {
  auto it = ledger.find(p);
  if (it == ledger.end() || it->second.id != id || it->second.n != n) { mon::fail("p18:allocator", it == ledger.end() ? "memory given back twice or never taken" : "memory of allocator " + std::to_string(it->second.id) + " given back to " + std::to_string(id)); return; }
  ledger.erase(it); ::operator delete(p);
}
template <class T, int F> struct TA { // F: bit 0 propagates on copy, 1 on move, 2 on swap
  using value_type = T;
  using propagate_on_container_copy_assignment = std::bool_constant<F & 1>;
  using propagate_on_container_move_assignment = std::bool_constant<(F & 2) != 0>;
  using propagate_on_container_swap = std::bool_constant<(F & 4) != 0>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = TA<U, F>; };
  int id = 0;
  TA(int i = 0) noexcept : id(i) {}
  template <class U> TA(const TA<U, F> &o) noexcept : id(o.id) {}
  T *allocate(size_t n) { return static_cast<T *>(take(id, n * sizeof(T))); }
  void deallocate(T *p, size_t n) { give(id, p, n * sizeof(T)); }
  friend bool operator==(const TA &a, const TA &b) { return a.id == b.id; }
};
struct Res : std::pmr::memory_resource {
  int id; explicit Res(int i) : id(i) {}
  void *do_allocate(size_t n, size_t) override { return take(id, n); }
  void do_deallocate(void *p, size_t n, size_t) override { give(id, p, n); }
  bool do_is_equal(const memory_resource &o) const noexcept override { return this == &o; }
};
Res res0(0), res1(1), res2(2);
Res *res[] = {&res0, &res1, &res2};

struct Payload { // its copies throw on demand
  int v = 0; int *heap;
  Payload(int x = 0) : v(x), heap(new int(x)) {}
  Payload(const Payload &o) : v(o.v), heap(nullptr) { burn(); ++copies; heap = new int(v); }
  Payload(Payload &&o) noexcept : v(o.v), heap(std::exchange(o.heap, nullptr)) {}
  Payload &operator=(const Payload &o) { burn(); ++copies; int *n = new int(o.v); delete heap; heap = n; v = o.v; return *this; }
  Payload &operator=(Payload &&o) noexcept { if (this != &o) { delete heap; heap = std::exchange(o.heap, nullptr); v = o.v; } return *this; }
  ~Payload() { delete heap; }
  bool operator==(const Payload &o) const { return v == o.v; }
  auto operator<=>(const Payload &o) const { return v <=> o.v; }
};
template <template <class> class AL> struct Node {
  Payload p;
  hpp_proto::optional_indirect<Node, AL<Node>> next;
  std::vector<hpp_proto::indirect<Node, AL<Node>>> kids;
  bool operator==(const Node &o) const { return p == o.p && next == o.next && kids == o.kids; }
};
struct Tree { int v = 0; std::vector<Tree> next, kids; bool operator==(const Tree &) const = default; };
template <class N> N build(const Tree &t) {
  N n{Payload(t.v), {}, {}};
  if (!t.next.empty()) n.next.emplace(build<N>(t.next[0]));
  for (auto &k : t.kids) n.kids.emplace_back(build<N>(k));
  return n;
}
template <class N> Tree read(const N &n) {
  Tree t; t.v = n.p.heap ? *n.p.heap : n.p.v; if (n.p.heap && *n.p.heap != n.p.v) t.v = -12345;
  if (n.next.has_value()) t.next.push_back(read(n.next.value()));
  for (auto &k : n.kids) t.kids.push_back(read(*k));
  return t;
}
std::string show(const Tree &t) { std::string o = std::to_string(t.v); if (!t.next.empty()) o += "->" + show(t.next[0]); if (!t.kids.empty()) { o += "["; for (auto &k : t.kids) o += show(k) + " "; o += "]"; } return o; }
Tree rtree(Rng &r, int depth) { Tree t; t.v = (int)r.below(1000); if (depth > 0 && r.below(3)) t.next.push_back(rtree(r, depth - 1)); if (depth > 0) for (int i = r.below(3); i-- > 0;) t.kids.push_back(rtree(r, depth - 1)); return t; }

template <class T> using StdA = std::allocator<T>;
template <class T> using PmrA = std::pmr::polymorphic_allocator<T>;
template <int F> struct TAF { template <class T> using A = TA<T, F>; };

template <template <class> class AL> struct Sut {
  using N = Node<AL>; using A = AL<N>; using I = hpp_proto::indirect<N, A>; using O = hpp_proto::optional_indirect<N, A>;
  using AT = std::allocator_traits<A>;
  static constexpr bool eq = AT::is_always_equal::value;
  static constexpr bool pmr = std::is_same_v<A, std::pmr::polymorphic_allocator<N>>;
  static A mka(int id) { if constexpr (eq) return A(); else if constexpr (pmr) return A(res[id]); else return A(id); }
  static int ida(const A &a) { if constexpr (eq) return 0; else if constexpr (pmr) return static_cast<Res *>(a.resource())->id; else return a.id; }
  // the model of a slot; known=false: moved-from or interrupted, its value is unspecified
  struct M { std::optional<Tree> t; int id = 0; bool known = true; };
  static constexpr int NS = 4;
  const char *name; Rng r; std::string trace;
  std::optional<I> is[NS]; std::optional<O> os[NS]; M mi[NS], mo[NS];
  Sut(const char *n, uint64_t seed) : name(n), r(seed) {
    for (int i = 0; i < NS; ++i) {
      mi[i].id = eq ? 0 : (int)r.below(3); mo[i].id = eq ? 0 : (int)r.below(3);
      is[i].emplace(std::allocator_arg, mka(mi[i].id)); mi[i].t = Tree{};
      os[i].emplace(std::allocator_arg, mka(mo[i].id));
    }
  }
  void bad(const std::string &w, const std::string &d) { mon::fail("p18:" + w + ":" + name, d + "\nhistory: " + trace); }
  bool owned(const void *p, int id) { if constexpr (eq) return true; else { auto it = ledger.find(const_cast<void *>(p)); return it != ledger.end() && it->second.id == id; } }
  bool check(const char *op) {
    fuse = -1;
    for (int i = 0; i < NS; ++i) {
      if (ida(is[i]->get_allocator()) != mi[i].id || ida(os[i]->get_allocator()) != mo[i].id) { bad("allocator", std::string(op) + ": slot " + std::to_string(i) + " has allocator " + std::to_string(ida(is[i]->get_allocator())) + "/" + std::to_string(ida(os[i]->get_allocator())) + " instead of " + std::to_string(mi[i].id) + "/" + std::to_string(mo[i].id)); return false; }
      if (mi[i].known) { Tree t = read(**is[i]); if (!(t == *mi[i].t)) { bad("value", std::string(op) + ": indirect " + std::to_string(i) + " is " + show(t) + " instead of " + show(*mi[i].t)); return false; } if (!owned(&**is[i], mi[i].id)) { bad("allocator", std::string(op) + ": the value of indirect " + std::to_string(i) + " is not in its allocator's memory"); return false; } }
      if (mo[i].known) {
        bool h = os[i]->has_value();
        if (h != mo[i].t.has_value() || (bool)*os[i] != h || (*os[i] == std::nullopt) == h) { bad("value", std::string(op) + ": has_value of optional_indirect " + std::to_string(i)); return false; }
        if (h) { Tree t = read(**os[i]); if (!(t == *mo[i].t)) { bad("value", std::string(op) + ": optional_indirect " + std::to_string(i) + " is " + show(t) + " instead of " + show(*mo[i].t)); return false; } if (!owned(&**os[i], mo[i].id)) { bad("allocator", std::string(op) + ": the value of optional_indirect " + std::to_string(i) + " is not in its allocator's memory"); return false; } }
        else { try { (void)os[i]->value(); bad("value", "value() of an empty optional_indirect didn't throw"); } catch (std::bad_optional_access &) {} }
      }
    }
    return true;
  }
  N fresh(Tree &t) { t = rtree(r, 3); return build<N>(t); }
  void arm(bool on) { copies = 0; if (on) fuse = (long)r.below(r.below(3) ? 6 : 30); }
  bool step() {
    int i = r.below(NS), j = r.below(NS), op = r.below(26), var = r.below(3); bool inj = r.below(3) == 0;
    char line[64]; std::snprintf(line, sizeof line, "%d.%d(%d,%d)%s ", op, var, i, j, inj ? "!" : ""); trace += line; if (trace.size() > 6000) trace.erase(0, 3000);
    std::set<M *> touched; Tree t;
    try {
      switch (op) {
      case 0: { N n = fresh(t); touched = {&mi[i]}; arm(inj); if (var == 0) *is[i] = std::move(n); else if (var == 1) *is[i] = static_cast<const N &>(n); else *is[i] = I(std::allocator_arg, is[i]->get_allocator(), std::in_place, std::move(n)); mi[i].t = t; mi[i].known = true; break; }
      case 1: { N n = fresh(t); touched = {&mo[i]}; arm(inj); if (var == 0) *os[i] = std::move(n); else if (var == 1) os[i]->emplace(std::move(n)); else os[i]->emplace(static_cast<const N &>(n)); mo[i].t = t; mo[i].known = true; break; }
      case 2: case 3: { // copy assignment, also to itself
        if (!mi[j].known && r.below(2)) break;
        touched = {&mi[i]}; arm(inj); auto &ref = *is[i] = static_cast<const I &>(*is[j]); fuse = -1; if (&ref != &*is[i]) bad("value", "assignment doesn't return the object");
        mi[i].t = mi[j].t; mi[i].known = mi[j].known; if (i != j && AT::propagate_on_container_copy_assignment::value) mi[i].id = mi[j].id; break; }
      case 4: case 5: { touched = {&mo[i]}; arm(inj); *os[i] = static_cast<const O &>(*os[j]); fuse = -1; mo[i].t = mo[j].t; mo[i].known = mo[j].known; if (i != j && AT::propagate_on_container_copy_assignment::value) mo[i].id = mo[j].id; break; }
      case 6: case 7: { // move assignment
        touched = {&mi[i], &mi[j]}; bool steal = eq || AT::propagate_on_container_move_assignment::value || mi[i].id == mi[j].id;
        if (!mi[j].known && !steal) break; // nothing is promised about the value
        const void *addr = mi[j].known ? &**is[j] : nullptr; arm(inj); *is[i] = std::move(*is[j]); fuse = -1;
        if (i == j) break;
        if (mi[j].known && steal && copies) bad("moved-by-copying", "move assignment of indirect copied " + std::to_string(copies) + " elements");
        if (addr && steal && &**is[i] != addr) bad("moved-by-copying", "move assignment of indirect relocated its value");
        mi[i].t = mi[j].t; mi[i].known = mi[j].known; mi[j].known = false; if (AT::propagate_on_container_move_assignment::value) mi[i].id = mi[j].id; break; }
      case 8: case 9: {
        touched = {&mo[i], &mo[j]}; bool steal = eq || AT::propagate_on_container_move_assignment::value || mo[i].id == mo[j].id;
        const void *addr = mo[j].known && mo[j].t ? &**os[j] : nullptr; arm(inj); *os[i] = std::move(*os[j]); fuse = -1;
        if (i == j) break;
        if (steal && copies) bad("moved-by-copying", "move assignment of optional_indirect copied");
        if (addr && steal && &**os[i] != addr) bad("moved-by-copying", "move assignment of optional_indirect relocated its value");
        mo[i].t = mo[j].t; mo[i].known = mo[j].known; mo[j].known = false; if (AT::propagate_on_container_move_assignment::value) mo[i].id = mo[j].id; break; }
      case 10: { // construction of a copy, changing the copy
        if (!mi[j].known) { I c(*is[j]); break; }
        int id = eq ? 0 : (int)r.below(3); arm(inj); std::optional<I> c; if (var == 0) c.emplace(*is[j]); else c.emplace(std::allocator_arg, mka(id), static_cast<const I &>(*is[j])); fuse = -1;
        if (!(*c == *is[j]) || !(read(**c) == *mi[j].t)) bad("value", "a copy of indirect differs"); if (&**c == &**is[j]) bad("shallow", "copy of indirect");
        if (var != 0 && ida(c->get_allocator()) != id) bad("allocator", "allocator-extended copy"); (*c)->p = Payload(77777); if (*c == *is[j]) bad("value", "indirects with different values are equal"); (*c)->kids.clear(); (*c)->next.reset(); break; }
      case 11: {
        int id = eq ? 0 : (int)r.below(3); arm(inj); std::optional<O> c; if (var == 0) c.emplace(*os[j]); else c.emplace(std::allocator_arg, mka(id), static_cast<const O &>(*os[j])); fuse = -1;
        if (!mo[j].known) break;
        if (!(*c == *os[j])) bad("value", "a copy of optional_indirect differs"); if (mo[j].t) { if (&**c == &**os[j]) bad("shallow", "copy of optional_indirect"); if (!(read(**c) == *mo[j].t)) bad("value", "copy of optional_indirect"); if (!(*os[j] == **c)) bad("value", "optional_indirect == T"); (*c)->p = Payload(77777); if (*c == *os[j]) bad("value", "different optional_indirects are equal"); c->reset(); if (*c == *os[j]) bad("value", "empty equals non-empty"); }
        else if (*c == N{}) bad("value", "an empty optional_indirect equals a value");
        break; }
      case 12: { // move construction, plain and allocator-extended, then back
        if (!mi[j].known) break;
        touched = {&mi[j]}; int id = eq ? 0 : (int)r.below(3); const void *addr = &**is[j]; arm(inj && var);
        std::optional<I> c; if (var == 0) c.emplace(std::move(*is[j])); else c.emplace(std::allocator_arg, mka(id), std::move(*is[j])); fuse = -1;
        bool steal = var == 0 || eq || id == mi[j].id;
        if (steal && (copies || &**c != addr)) bad("moved-by-copying", "move construction of indirect");
        if (!(read(**c) == *mi[j].t)) bad("value", "move construction of indirect"); if (ida(c->get_allocator()) != (var == 0 ? mi[j].id : id)) bad("allocator", "move construction of indirect");
        is[j].emplace(std::allocator_arg, mka(mi[j].id), std::move(*c)); break; }
      case 13: {
        touched = {&mo[j]}; int id = eq ? 0 : (int)r.below(3); const void *addr = mo[j].known && mo[j].t ? &**os[j] : nullptr; arm(inj && var);
        std::optional<O> c; if (var == 0) c.emplace(std::move(*os[j])); else c.emplace(std::allocator_arg, mka(id), std::move(*os[j])); fuse = -1;
        bool steal = var == 0 || eq || id == mo[j].id;
        if (mo[j].known && c->has_value() != mo[j].t.has_value()) bad("value", "move construction of optional_indirect");
        if (addr && steal && (copies || &**c != addr)) bad("moved-by-copying", "move construction of optional_indirect");
        if (addr && !(read(**c) == *mo[j].t)) bad("value", "move construction of optional_indirect");
        if (var == 0 && os[j]->has_value()) bad("value", "a moved-from optional_indirect still has a value");
        os[j].emplace(std::allocator_arg, mka(mo[j].id), std::move(*c)); break; }
      case 14: { // swap; with unequal allocators that do not propagate the values change places
        if (mi[i].id != mi[j].id && !AT::propagate_on_container_swap::value && !(mi[i].known && mi[j].known)) break;
        touched = {&mi[i], &mi[j]}; arm(inj); is[i]->swap(*is[j]); fuse = -1; std::swap(mi[i].t, mi[j].t); std::swap(mi[i].known, mi[j].known); if (AT::propagate_on_container_swap::value) std::swap(mi[i].id, mi[j].id); break; }
      case 15: { touched = {&mo[i], &mo[j]}; arm(inj); os[i]->swap(*os[j]); fuse = -1; std::swap(mo[i].t, mo[j].t); std::swap(mo[i].known, mo[j].known); if (AT::propagate_on_container_swap::value) std::swap(mo[i].id, mo[j].id); break; }
      case 16: { os[i]->reset(); mo[i].t.reset(); mo[i].known = true; break; }
      case 17: case 18: { // move assignment from a part of the object's own value
        if (!mo[i].known || !mo[i].t) break;
        Tree *m = &*mo[i].t; N *n = &**os[i]; int d = 0;
        while (!m->next.empty() && r.below(2)) { m = &m->next[0]; n = &*n->next; ++d; }
        if (mo[i].id != 0 && !AT::propagate_on_container_move_assignment::value) break;
        touched = {&mo[i]}; Tree keep; bool has = !m->next.empty(); if (has) keep = m->next[0];
        const void *addr = has ? &*n->next : nullptr;
        arm(inj); *os[i] = std::move(n->next); fuse = -1; mon::count("aliased-moves");
        if (copies) bad("moved-by-copying", "move assignment from a descendant copied");
        if (has) mo[i].t = keep; else mo[i].t.reset();
        if (AT::propagate_on_container_move_assignment::value) mo[i].id = 0;
        if (addr && &**os[i] != addr) bad("moved-by-copying", "move assignment from a descendant relocated it");
        break; }
      case 19: { // the same for indirect
        if (!mi[i].known || (mi[i].id != 0 && !AT::propagate_on_container_move_assignment::value)) break;
        Tree *m = &*mi[i].t; N *n = &**is[i];
        while (!m->kids.empty() && r.below(2)) { size_t k = r.below(m->kids.size()); if (m->kids[k].kids.empty()) break; m = &m->kids[k]; n = &*n->kids[k]; }
        if (m->kids.empty()) break;
        size_t k = r.below(m->kids.size()); Tree keep = m->kids[k]; touched = {&mi[i]}; arm(inj);
        *is[i] = std::move(n->kids[k]); fuse = -1; mon::count("aliased-moves"); if (copies) bad("moved-by-copying", "move assignment of indirect from a descendant copied"); mi[i].t = keep; if (AT::propagate_on_container_move_assignment::value) mi[i].id = 0; break; }
      case 20: { // copy assignment from a part of the object's own value
        if (!mo[i].known || !mo[i].t || (AT::propagate_on_container_copy_assignment::value && mo[i].id != 0)) break;
        Tree *m = &*mo[i].t; N *n = &**os[i];
        while (!m->next.empty() && r.below(2)) { m = &m->next[0]; n = &*n->next; }
        Tree keep; bool has = !m->next.empty(); if (has) keep = m->next[0]; touched = {&mo[i]}; arm(inj);
        *os[i] = static_cast<const O &>(n->next); fuse = -1; if (has) mo[i].t = keep; else mo[i].t.reset(); mon::count("aliased-copies"); break; }
      case 21: { // change a part in place
        if (mo[i].known && mo[i].t) { Tree *m = &*mo[i].t; N *n = &**os[i]; while (!m->next.empty() && r.below(2)) { m = &m->next[0]; n = &*n->next; } m->v = (int)r.below(1000); n->p = Payload(m->v); if (var == 0) { m->next.clear(); n->next.reset(); } else if (var == 1 && m->kids.size()) { m->kids.pop_back(); n->kids.pop_back(); } else { Tree x; n->kids.emplace_back(fresh(x)); m->kids.push_back(x); } }
        if (mi[i].known) { mi[i].t->v = 5; is[i]->value().p = Payload(5); }
        break; }
      case 22: { // comparisons
        if (mi[i].known && mi[j].known) { bool e = *mi[i].t == *mi[j].t; if ((*is[i] == *is[j]) != e || (*is[i] != *is[j]) == e || (*is[i] == **is[j]) != e) bad("equality", "indirect"); }
        if (mo[i].known && mo[j].known) { bool e = mo[i].t == mo[j].t; if ((*os[i] == *os[j]) != e || (*os[i] != *os[j]) == e) bad("equality", "optional_indirect"); if (mo[j].t && (*os[i] == **os[j]) != e) bad("equality", "optional_indirect and value"); }
        break; }
      case 23: { // monadic operations
        if (!mo[i].known) break;
        const O &c = *os[i]; bool h = mo[i].t.has_value();
        auto a = os[i]->and_then([](N &n) { return std::optional<int>(n.p.v); }); auto b = c.and_then([](const N &n) { return std::optional<int>(n.p.v); }); auto d = c.transform([](const N &n) { return n.p.v + 1; }); auto e = os[i]->transform([](N &n) { return n.p.v + 1; });
        if (a.has_value() != h || b.has_value() != h || d.has_value() != h || e.has_value() != h || (h && (*a != mo[i].t->v || *b != mo[i].t->v || *d != mo[i].t->v + 1 || *e != *d))) bad("monadic", "and_then or transform");
        O alt = c.or_else([] { O x; x.emplace(N{Payload(4242), {}, {}}); return x; }); if (!alt.has_value() || (h ? !(read(*alt) == *mo[i].t) : alt->p.v != 4242)) bad("monadic", "or_else");
        if (h) { touched = {&mo[i]}; auto g = std::move(*os[i]).transform([](N &&n) { return N(std::move(n)); }); if (!g || !(read(*g) == *mo[i].t)) bad("monadic", "rvalue transform"); mo[i].known = false; }
        break; }
      case 24: { // value moved out through rvalue access
        if (mi[i].known) { copies = 0; N n = *std::move(*is[i]); if (copies) bad("moved-by-copying", "rvalue operator* of indirect"); if (!(read(n) == *mi[i].t)) bad("value", "rvalue operator* of indirect"); *is[i] = std::move(n); }
        if (mo[i].known && mo[i].t) { copies = 0; N n = std::move(*os[i]).value(); if (copies) bad("moved-by-copying", "rvalue value of optional_indirect"); if (!(read(n) == *mo[i].t)) bad("value", "rvalue value()"); os[i]->emplace(std::move(n)); }
        break; }
      default: { // views
        if (!mi[j].known) break;
        N other = build<N>(rtree(r, 2)); hpp_proto::indirect_view<N> v(&**is[j]), w(&other), nul; 
        if (!(read(*v) == *mi[j].t) || !(v == **is[j]) || !(*nul == N{}) || (v == w) != (**is[j] == other) || (nul == v) != (**is[j] == N{})) bad("view", "indirect_view"); v.swap(w); if (!(*v == other)) bad("view", "swap of indirect_view"); v.reset(nullptr); if (!(*v == N{})) bad("view", "a null indirect_view is not the default value");
        hpp_proto::optional_indirect_view<N> x(&**is[j]), y(&other), z; if (!x.has_value() || z.has_value() || (x == y) != (**is[j] == other) || x == z || z == x || !(z == nullptr) || x == nullptr || !(*x == **is[j])) bad("view", "optional_indirect_view"); try { (void)z.value(); bad("view", "value of an empty view"); } catch (std::bad_optional_access &) {} x.swap(z); if (x.has_value() || !z.has_value()) bad("view", "swap of optional_indirect_view"); break; }
      }
    } catch (Boom &) {
      fuse = -1; mon::count("exceptions-injected");
      // everything not taking part is unchanged (checked below); what took part can be read, assigned and destroyed
      for (M *m : touched) { m->known = false; bool isi = m >= mi && m < mi + NS; int k = isi ? m - mi : m - mo; m->id = isi ? ida(is[k]->get_allocator()) : ida(os[k]->get_allocator()); if (!isi && os[k]->has_value()) (void)read(**os[k]); }
    }
    fuse = -1; mon::count("ops:" + std::to_string(op));
    return check(("op " + std::to_string(op) + "." + std::to_string(var)).c_str());
  }
  static void run(const char *name, uint64_t seed, int steps) {
    mon::begin((std::string("history of ") + name + " seed=" + std::to_string(seed)).c_str());
    { Sut s(name, seed); for (int i = 0; i < steps; ++i) if (!s.step()) break; mon::seen(name, s.trace); mon::count("steps", steps); if (seed % 131 == 5) mon::sample(std::string(name) + ": " + s.trace.substr(0, 300)); }
    if (!ledger.empty()) { mon::fail(std::string("p18:leak:") + name, std::to_string(ledger.size()) + " blocks outlive the objects"); ledger.clear(); }
  }
};

// deep chains: unlinking the front of a list by move assignment
template <template <class> class AL> void chain(Rng &r, int n) {
  mon::begin("unlinking a chain");
  using N = Node<AL>; N head; N *p = &head; for (int i = 0; i < n; ++i) { p->next.emplace(N{Payload(i), {}, {}}); p = &*p->next; }
  int left = n, expect = 0;
  while (head.next.has_value()) { if (head.next->p.v != expect) { mon::fail("p18:chain", "element " + std::to_string(head.next->p.v) + " instead of " + std::to_string(expect)); return; } int k = 1 + (int)r.below(3); N *q = &head; (void)q; for (int i = 0; i < k && head.next.has_value(); ++i) { head.next = std::move(head.next->next); ++expect; --left; } }
  if (left) mon::fail("p18:chain", "elements lost");
  mon::count("chains"); mon::seen("chain", std::to_string(n) + std::to_string(r.s));
}
} // namespace

int main(int argc, char **argv) {
  mon::init(argc, argv);
  std::pmr::set_default_resource(&res0);
  for (uint64_t c = mon::g.shard; c < mon::g.cases; c += mon::g.nshards) {
    uint64_t s = mon::g.seed * 1000003 + c; int steps = 20 + (int)((s * 2654435761u >> 7) % 150);
    switch (c / mon::g.nshards % 8) {
    case 0: Sut<StdA>::run("std", s, steps); break;
    case 1: Sut<PmrA>::run("pmr", s, steps); break;
    case 2: Sut<TAF<0>::A>::run("no-propagation", s, steps); break;
    case 3: Sut<TAF<7>::A>::run("propagates-all", s, steps); break;
    case 4: Sut<TAF<1>::A>::run("propagates-copy", s, steps); break;
    case 5: Sut<TAF<2>::A>::run("propagates-move", s, steps); break;
    case 6: Sut<TAF<4>::A>::run("propagates-swap", s, steps); break;
    default: { Rng r(s); chain<StdA>(r, 1 + (int)r.below(500)); chain<PmrA>(r, 1 + (int)r.below(500)); chain<TAF<2>::A>(r, 1 + (int)r.below(500)); if (!ledger.empty()) { mon::fail("p18:leak:chain", "blocks left"); ledger.clear(); } }
    }
  }
  mon::count("faults", fused);
  return mon::finish();
}
