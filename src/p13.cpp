// P13: the descriptor pool and the dynamic message factory against the attributes protobuf's own pool assigns.
// Reads NNN.fds / NNN.tbl / NNN.pay from the directory given by --replay, writes NNN.back.
#include "mon.hpp"
#include "ref.hpp"
#include <algorithm>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <hpp_proto/dynamic_message/factory.hpp>
#include <hpp_proto/dynamic_message/binpb.hpp>
namespace hp = hpp_proto;
using ref::Rng;
extern "C" bool is_utf8(const char *p, size_t n) { return ref::valid_utf8(std::string_view(p, n)); }
namespace {
std::string slurp(const std::string &p) { std::ifstream in(p, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
std::vector<std::string> split(const std::string &s, char c) { std::vector<std::string> o; size_t b = 0; for (;;) { size_t e = s.find(c, b); o.push_back(s.substr(b, e - b)); if (e == std::string::npos) return o; b = e + 1; } }
std::vector<std::string> list(const std::string &s) { return s == "-" ? std::vector<std::string>{} : split(s, ','); }
std::string unh(const std::string &s) { return s == "-" ? "" : mon::unhex(s); }
std::string cur_set;
void bad(const std::string &k, const std::string &d) { mon::fail("p13:" + k, cur_set + ": " + d); }

// the files of a descriptor set, as serialized
std::vector<std::string> files_of(const std::string &s) {
  std::vector<std::string> o; size_t i = 0;
  while (i < s.size()) { if (s[i++] != 0x0a) std::abort(); uint64_t n = 0; int sh = 0; for (;;) { unsigned char c = (unsigned char)s[i++]; n |= (uint64_t)(c & 127) << sh; sh += 7; if (c < 128) break; } o.push_back(s.substr(i, n)); i += n; }
  return o;
}
std::string join(const std::vector<std::string> &f) {
  std::string o; for (auto &x : f) { o += '\n'; uint64_t n = x.size(); while (n > 127) { o += (char)(n | 128); n >>= 7; } o += (char)n; o += x; } return o;
}
std::string name_of(const std::string &f) { // FileDescriptorProto.name comes first
  if (f.empty() || f[0] != 0x0a) return ""; size_t n = (unsigned char)f[1], i = 2; if (n > 127) { n = (n & 127) | ((size_t)(unsigned char)f[2] << 7); i = 3; } return f.substr(i, n);
}
using Exp = std::expected<hp::dynamic_message_factory, hp::dynamic_message_errc>;
// create() reads from an exact-size heap block; route 1 gives the files one by one
Exp create(const std::vector<std::string> &files, int route) {
  if (route == 0) { std::string s = join(files); std::unique_ptr<char[]> p(new char[s.size()]); std::memcpy(p.get(), s.data(), s.size()); return hp::dynamic_message_factory::create(std::span<const char>(p.get(), s.size())); }
  auto arr = [&]<size_t N>(std::integral_constant<size_t, N>) { hp::distinct_file_descriptor_pb_array<N> a{}; for (size_t i = 0; i < N; ++i) a[i].value = files[i]; return hp::dynamic_message_factory::create(a); };
  switch (files.size()) {
  case 1: return arr(std::integral_constant<size_t, 1>{});
  case 2: return arr(std::integral_constant<size_t, 2>{});
  case 3: return arr(std::integral_constant<size_t, 3>{});
  case 4: return arr(std::integral_constant<size_t, 4>{});
  default: return create(files, 0);
  }
}
struct Row { std::vector<std::string> c; };
struct Table { std::vector<Row> rows; std::map<std::string, Row> msgs, enums, files; };

struct Pool { // any message leads to the pool
  const hp::descriptor_pool_t *p = nullptr;
};
const hp::descriptor_pool_t *pool_of(const hp::dynamic_message_factory &f, const Table &t) {
  std::pmr::monotonic_buffer_resource mr;
  for (auto &[n, r] : t.msgs) { auto m = f.get_message(n, mr); if (m) return &m->descriptor().parent_file()->get_descriptor_pool(); }
  return nullptr;
}
std::string tn(std::string_view s) { return std::string(s); }
template <class D> std::vector<std::string> names(D &&range) { std::vector<std::string> v; for (auto &x : range) v.push_back(std::string(x.full_name())); return v; }
std::vector<std::string> sorted(std::vector<std::string> v) { std::ranges::sort(v); return v; }
std::string cat(const std::vector<std::string> &v) { std::string o; for (auto &s : v) o += (o.empty() ? "" : ",") + s; return o; }

void check_field(const hp::field_descriptor_t &f, const Row &r, bool ext, bool map_entry) {
  const auto &c = r.c; const std::string where = c[1] + "." + c[2] + (ext ? " (extension)" : "");
  auto want = [&](const char *what, const std::string &got, const std::string &exp) { if (got != exp) bad(std::string("field-") + what, where + ": got " + got + ", expected " + exp); };
  ++mon::evaluations; mon::count(ext ? "extensions" : "fields");
  want("name", std::string(f.proto().name), c[2]);
  want("number", std::to_string(f.proto().number), c[3]);
  want("json-name", mon::hexs(f.proto().json_name), mon::hexs(unh(c[12])));
  int type = std::atoi(c[4].c_str()); bool delimited = type == 10;
  int raw = (int)f.proto().type; if (raw != type && !(delimited && raw == 11)) want("type", std::to_string(raw), c[4]);
  want("delimited", std::to_string(f.is_delimited()), std::to_string(delimited));
  want("repeated", std::to_string(f.is_repeated()), std::to_string(c[5] == "3"));
  want("required", std::to_string(f.is_required()), std::to_string(c[5] == "2"));
  want("packed", std::to_string(f.is_packed()), c[6]);
  want("expanded", std::to_string(f.repeated_expanded()), std::to_string(c[5] == "3" && c[6] == "0"));
  if (!map_entry && !ext) want("presence", std::to_string(f.explicit_presence() || f.is_required()), c[7]);
  want("utf8", std::to_string(f.requires_utf8_validation()), c[8]);
  const auto *m = f.message_field_type_descriptor(); const auto *e = f.enum_field_type_descriptor();
  want("type-name", m ? std::string(m->full_name()) : e ? std::string(e->full_name()) : "-", c[9]);
  want("map", std::to_string(f.is_map_entry()), std::to_string(m && m->is_map_entry()));
  if (m && m->is_map_entry()) mon::count("maps");
  if (ext) want("extendee", f.extendee_descriptor() ? std::string(f.extendee_descriptor()->full_name()) : "-", c[13]);
  else if (f.extendee_descriptor()) want("extendee", std::string(f.extendee_descriptor()->full_name()), "-");
  std::string par = f.parent_message() ? std::string(f.parent_message()->full_name()) : "-";
  if (!ext) want("parent", par, c[1]);
  if (delimited) mon::count("delimited"); if (c[6] == "1") mon::count("packed"); if (c[8] == "1") mon::count("utf8"); if (c[5] == "2") mon::count("required"); if (c[7] == "0" && c[5] == "1") mon::count("implicit");
  mon::seen(c[4] + c[5] + c[6] + c[7] + c[8] + (c[10] == "-" ? "" : "o") + (map_entry ? "e" : "") + (ext ? "x" : ""), c[11]);
}
void check_default(const hp::message_value_mref &m, const Row &r) {
  const auto &c = r.c; if (c[11] == "none") return;
  auto ref = m.cref().field_by_name(c[2]); auto byn = m.cref().field_by_number((uint32_t)std::stoul(c[3]));
  if (!ref || !byn) { bad("field-lookup", c[1] + "." + c[2] + " is not found by " + (!ref ? "name" : "number")); return; }
  for (auto *q : {&*ref, &*byn}) q->visit([&](auto x) {
    using C = decltype(x); std::string got = "?";
    if constexpr (C::is_repeated) got = "repeated";
    else if constexpr (C::field_kind == hp::KIND_MESSAGE) got = "message";
    else {
      if (x.has_value()) bad("default-presence", c[1] + "." + c[2] + " of a fresh message is set");
      if constexpr (C::field_kind == hp::KIND_STRING || C::field_kind == hp::KIND_BYTES) { auto v = x.value(); std::string s((const char *)v.data(), v.size()); got = "s:" + (s.empty() ? "-" : mon::hexs(s)); }
      else if constexpr (C::field_kind == hp::KIND_ENUM) got = "n:" + std::to_string((uint64_t)(int64_t)x.number());
      else { auto v = x.value(); using V = decltype(v); if constexpr (std::is_floating_point_v<V>) got = std::isnan(v) ? "n:nan" : "n:" + (sizeof v == 8 ? std::to_string(std::bit_cast<uint64_t>((double)v)) : std::to_string(std::bit_cast<uint32_t>((float)v))); else got = "n:" + std::to_string(std::is_signed_v<V> ? (uint64_t)(int64_t)v : (uint64_t)v); }
    }
    if (got != c[11]) bad("default", c[1] + "." + c[2] + ": got " + got + ", expected " + c[11]);
    else mon::count(c[11] == "n:0" || c[11] == "s:-" ? "zero-defaults" : "defaults");
  });
}

void check_pool(const hp::dynamic_message_factory &fac, const Table &t) {
  const auto *pool = pool_of(fac, t); if (!pool) { if (!t.msgs.empty()) bad("lookup", "no message of the set is found"); return; }
  if (pool->messages().size() != t.msgs.size()) bad("count", "messages: " + std::to_string(pool->messages().size()) + " expected " + std::to_string(t.msgs.size()));
  if (pool->enums().size() != t.enums.size()) bad("count", "enums: " + std::to_string(pool->enums().size()) + " expected " + std::to_string(t.enums.size()));
  if (pool->files().size() != t.files.size()) bad("count", "files: " + std::to_string(pool->files().size()) + " expected " + std::to_string(t.files.size()));
  std::pmr::monotonic_buffer_resource mr;
  std::map<std::string, const hp::message_descriptor_t *> md;
  for (auto &[n, r] : t.msgs) {
    const auto *d = pool->get_message_descriptor(n); auto m = fac.get_message(n, mr);
    if (!d || !m) { bad("lookup", "message " + n + " is not found"); continue; }
    if (&m->descriptor() != d) bad("lookup", "message " + n + " leads to another descriptor");
    md[n] = d;
    const auto &c = r.c; auto w = [&](const char *what, const std::string &g, const std::string &e) { if (g != e) bad(std::string("message-") + what, n + ": got " + g + ", expected " + e); };
    w("name", std::string(d->full_name()), n); w("map-entry", std::to_string(d->is_map_entry()), c[2]);
    w("parent", d->parent_message() ? std::string(d->parent_message()->full_name()) : "-", c[3]); w("file", std::string(d->parent_file()->proto().name), c[4]);
    std::vector<std::string> fn; for (auto &f : d->fields()) fn.push_back(std::string(f.proto().name)); w("fields", cat(fn), cat(list(c[5])));
    w("nested", cat(sorted(names(d->messages()))), cat(sorted(list(c[6])))); w("enums", cat(sorted(names(d->enums()))), cat(sorted(list(c[7]))));
    std::vector<std::string> xn; for (auto &f : d->extensions()) xn.push_back(std::string(f.proto().name)); w("extensions", cat(sorted(xn)), cat(sorted(list(c[8]))));
    ++mon::evaluations; mon::count("messages");
  }
  std::map<std::string, int> oneofs;
  for (auto &row : t.rows) {
    const auto &c = row.c;
    if (c[0] == "f") {
      auto *d = md[c[1]]; if (!d) continue; const hp::field_descriptor_t *f = nullptr; for (auto &x : d->fields()) if (x.proto().name == c[2]) f = &x;
      if (!f) { bad("field-missing", c[1] + "." + c[2]); continue; }
      check_field(*f, row, false, d->is_map_entry());
      bool one = f->proto().oneof_index.has_value(); std::string on = one ? std::string(d->proto().oneof_decl[(size_t)*f->proto().oneof_index].name) : "-";
      if (on != c[10]) bad("field-oneof", c[1] + "." + c[2] + ": " + on + ", expected " + c[10]);
      if (!d->is_map_entry()) { auto m = fac.get_message(c[1], mr); check_default(*m, row); }
    } else if (c[0] == "O") {
      auto *d = md[c[1]]; if (!d) continue; size_t k = 0; bool found = false;
      for (auto &o : d->oneofs()) { if (o.proto().name == c[2]) { found = true; std::vector<std::string> fn; for (auto &f : o.fields()) fn.push_back(std::string(f.proto().name)); if (cat(sorted(fn)) != cat(sorted(list(c[3])))) bad("oneof-fields", c[1] + "." + c[2] + ": " + cat(fn)); } ++k; }
      if (!found) bad("oneof-missing", c[1] + "." + c[2]); mon::count("oneofs"); ++oneofs[c[1]];
    } else if (c[0] == "X") {
      const hp::field_descriptor_t *f = nullptr;
      if (c[1][0] == '/') { auto *fd = pool->get_file_descriptor(c[1].substr(1)); if (!fd) continue; for (auto &x : fd->extensions()) if (x.proto().name == c[2]) f = &x; }
      else if (auto *d = md[c[1]]) { for (auto &x : d->extensions()) if (x.proto().name == c[2]) f = &x; }
      if (!f) { bad("extension-missing", c[1] + "." + c[2]); continue; }
      check_field(*f, row, true, false);
    } else if (c[0] == "E") {
      auto *e = pool->get_enum_descriptor(c[1]); if (!e) { bad("lookup", "enum " + c[1] + " is not found"); continue; }
      ++mon::evaluations; mon::count(e->is_closed() ? "closed-enums" : "open-enums");
      if (std::to_string(e->is_closed()) != c[2]) bad("enum-closed", c[1] + ": expected " + c[2]);
      if (e->full_name() != c[1] || e->parent_file()->proto().name != c[3] || (e->parent_message() ? std::string(e->parent_message()->full_name()) : "-") != c[4]) bad("enum-place", c[1]);
      std::map<int32_t, std::string> first; std::vector<std::string> vn; for (auto &v : e->proto().value) vn.push_back(std::string(v.name) + "=" + std::to_string(v.number));
      if (cat(vn) != c[5]) bad("enum-values", c[1] + ": " + cat(vn));
      for (auto &v : list(c[5])) { size_t q = v.find('='); std::string nm = v.substr(0, q); int32_t num = (int32_t)std::stol(v.substr(q + 1)); first.try_emplace(num, nm); auto *p = e->value_of(nm); if (!p || *p != num) bad("enum-by-name", c[1] + "." + nm); if (e->value_of(nm + "_") && !std::ranges::count(list(c[5]), nm + "_=", [](auto &s) { return s.substr(0, s.find('=') + 1); })) bad("enum-by-name", c[1] + " has a value it should not have"); if (!e->valid_enum_value(num)) bad("enum-valid", c[1] + "." + nm); }
      for (auto &[num, nm] : first) if (e->name_of(num) != nm) bad("enum-by-number", c[1] + " " + std::to_string(num) + ": " + std::string(e->name_of(num)) + ", expected " + nm);
      for (int32_t q : {0, 1, 3, -5, 1000001, INT32_MAX, INT32_MIN}) if (!first.count(q)) { if (e->valid_enum_value(q) == (c[2] == "1")) bad("enum-valid", c[1] + " " + std::to_string(q)); if (!e->name_of(q).empty()) bad("enum-by-number", c[1] + " names an unknown number"); }
    } else if (c[0] == "F") {
      auto *f = pool->get_file_descriptor(c[1]); if (!f) { bad("lookup", "file " + c[1] + " is not found"); continue; }
      std::vector<std::string> dep; for (auto &x : f->dependencies()) dep.push_back(std::string(x.proto().name)); std::vector<std::string> wd; for (auto &x : list(c[2])) wd.push_back(unh(x));
      if (cat(sorted(dep)) != cat(sorted(wd))) bad("file-dependencies", c[1] + ": " + cat(dep));
      if (cat(sorted(names(f->messages()))) != cat(sorted(list(c[3])))) bad("file-messages", c[1] + ": " + cat(names(f->messages())));
      if (cat(sorted(names(f->enums()))) != cat(sorted(list(c[4])))) bad("file-enums", c[1] + ": " + cat(names(f->enums())));
      std::vector<std::string> xn; for (auto &x : f->extensions()) xn.push_back(std::string(x.proto().name)); if (cat(sorted(xn)) != cat(sorted(list(c[5])))) bad("file-extensions", c[1] + ": " + cat(xn));
      mon::count("files");
    }
  }
  for (auto &[n, d] : md) if (d->oneofs().size() != (size_t)oneofs[n]) bad("oneof-count", n);
  // names that are not in the schema
  auto unknown = [&](const std::string &n) {
    if (!t.msgs.count(n)) { if (pool->get_message_descriptor(n)) bad("unknown-found", "message " + n); auto m = fac.get_message(n, mr); if (m || m.error() != hp::dynamic_message_errc::unknown_message_name) bad("unknown-found", "message " + n); mon::count("unknown-names"); }
    if (!t.enums.count(n) && pool->get_enum_descriptor(n)) bad("unknown-found", "enum " + n);
    if (!t.files.count(n) && pool->get_file_descriptor(n)) bad("unknown-found", "file " + n);
  };
  for (auto *m : {&t.msgs, &t.enums, &t.files}) for (auto &[n, r] : *m) { unknown("." + n); unknown(n + "x"); unknown(n + "."); if (n.size() > 1) { unknown(n.substr(1)); unknown(n.substr(0, n.size() - 1)); } size_t q = n.find('.'); if (q != std::string::npos) { unknown(n.substr(q + 1)); unknown(n.substr(0, q)); } std::string u = n; u[0] ^= 32; unknown(u); }
  unknown("");
  for (auto &[n, r] : t.msgs) if (r.c[2] == "0") {
    auto m = fac.get_message(n, mr); if (!m) continue; std::set<std::string> have; for (auto &x : list(r.c[5])) have.insert(x);
    std::vector<std::string> tryn{"", "nope", n}; for (auto &x : have) { tryn.push_back(x + "_"); tryn.push_back(x.substr(1)); }
    for (auto &x : tryn) if (!have.count(x)) { if (m->field_by_name(x) || m->field_by_name(x).error() != hp::dynamic_message_errc::no_such_field) bad("unknown-found", "field " + n + "." + x); mon::count("unknown-fields"); }
    std::set<uint32_t> nums; for (auto &f : md[n]->fields()) nums.insert((uint32_t)f.proto().number);
    std::vector<uint32_t> tr{0, 1, 2, 3, 15, 16, 536870911, 536870912, 0xffffffff}; for (uint32_t x : nums) { tr.push_back(x + 1); tr.push_back(x - 1); tr.push_back(x + (1u << 29)); }
    for (uint32_t x : tr) if (!nums.count(x) && m->field_by_number(x)) bad("unknown-found", "field number " + n + "." + std::to_string(x));
  }
}

// a factory made from damaged descriptors: whatever it holds can be used
void exercise(const hp::dynamic_message_factory &fac, const std::vector<std::string> &msgs) {
  for (auto &n : msgs) {
    std::pmr::monotonic_buffer_resource mr; auto m = fac.get_message(n, mr); if (!m) continue;
    for (auto &f : m->descriptor().fields()) { auto q = m->field_by_name(f.proto().name); if (q) q->visit([&](auto x) { (void)x; }); }
    std::string out; (void)hp::write_binpb(m->cref(), out); mon::count("damaged-used");
  }
}

void one_set(const std::string &base, Rng r) {
  Table t; cur_set = std::filesystem::path(base).filename().string();
  { std::ifstream in(base + ".tbl"); std::string l; while (std::getline(in, l)) { Row row{split(l, '\t')}; t.rows.push_back(row); if (row.c[0] == "M") t.msgs[row.c[1]] = row; if (row.c[0] == "E") t.enums[row.c[1]] = row; if (row.c[0] == "F") t.files[row.c[1]] = row; } }
  auto files = files_of(slurp(base + ".fds"));
  std::vector<std::string> mnames; for (auto &[n, _] : t.msgs) mnames.push_back(n);
  mon::begin(("set " + cur_set).c_str());
  std::optional<hp::dynamic_message_factory> keep;
  for (int k = 0; k < 3; ++k) {
    auto f = files; if (k) for (size_t i = f.size(); i > 1; --i) std::swap(f[i - 1], f[r.below(i)]);
    auto fac = create(f, k & 1); mon::count("factories");
    if (!fac) { bad("refused", "valid descriptors in order " + [&] { std::string o; for (auto &x : f) o += name_of(x) + " "; return o; }() + "are refused, error " + std::to_string((int)fac.error())); continue; }
    check_pool(*fac, t);
    if (!keep) keep = std::move(*fac);
  }
  if (keep) { // the factory moved to its place still works; messages of every type
    std::ofstream back(base + ".back"); std::ifstream in(base + ".pay"); std::string l;
    while (std::getline(in, l)) {
      auto c = split(l, '\t'); if (c.size() != 2) continue; std::string b = unh(c[1]); std::pmr::monotonic_buffer_resource mr;
      mon::begin(("set " + cur_set + " message " + c[0]).c_str(), b);
      auto m = keep->get_message(c[0], mr); if (!m) { bad("lookup", c[0]); continue; }
      auto st = hp::read_binpb(*m, b); if (!st.ok()) { bad("wire-read", c[0] + " refuses " + c[1] + " error " + std::to_string((int)st.ec)); continue; }
      std::string out; if (!hp::write_binpb(m->cref(), out).ok()) { bad("wire-write", c[0]); continue; }
      back << c[0] << '\t' << (b.empty() ? "-" : mon::hexs(b, 1 << 20)) << '\t' << (out.empty() ? "-" : mon::hexs(out, 1 << 20)) << '\n'; mon::count("payloads");
    }
  }
  // a missing dependency
  std::set<std::string> needed; for (auto &[n, row] : t.files) for (auto &d : list(row.c[2])) needed.insert(unh(d));
  for (size_t i = 0; i < files.size(); ++i) if (needed.count(name_of(files[i]))) {
    auto f = files; f.erase(f.begin() + (long)i); mon::begin(("set " + cur_set + " without " + name_of(files[i])).c_str());
    for (int route : {0, 1}) { auto fac = create(f, route); if (fac) bad("missing-dependency", "created without " + name_of(files[i])); }
    mon::count("missing-dependencies");
  }
  { // a conflicting duplicate: the same file name with other content, before or after
    size_t i = r.below(files.size()); std::string other; auto nm = name_of(files[i]); other += '\n'; if (nm.size() < 128) { other += (char)nm.size(); other += nm; other += std::string("\x12\x05", 2) + "other"; // package
      auto f = files; if (r.chance(1, 2)) f.insert(f.begin(), other); else f.push_back(other);
      mon::begin(("set " + cur_set + " with a second " + nm).c_str());
      for (int route : {0, 1}) { auto fac = create(f, route); if (fac) bad("conflicting-file", "created with two files named " + nm); }
      mon::count("conflicting-files"); }
    // a type defined in two files
    std::string dup = files[i]; std::string nn = nm; nn[nn.size() - 7] ^= 1; if (!t.files.count(nn)) { size_t q = dup.find(nm); dup.replace(q, nm.size(), nn); bool has = false; for (auto &[n, row] : t.msgs) has |= row.c[4] == nm; for (auto &[n, row] : t.enums) has |= row.c[3] == nm;
      if (has) { auto f = files; f.push_back(dup); mon::begin(("set " + cur_set + " with a copy of " + nm).c_str()); auto fac = create(f, 0); if (fac) bad("conflicting-types", "created with the types of " + nm + " defined twice"); mon::count("conflicting-types"); } }
  }
  // damaged bytes
  std::string all = join(files);
  for (int k = 0; k < (mon::g.thorough ? 200 : 40); ++k) {
    std::string s = all; int kind = (int)r.below(3);
    if (kind == 0) s.resize(r.below(s.size()));
    else if (kind == 1) for (int j = (int)r.below(3); j >= 0; --j) s[r.below(s.size())] = (char)r.below(256);
    else { size_t at = r.below(s.size()), n = 1 + r.below(6); if (r.chance(1, 2)) s.erase(at, n); else s.insert(at, s.substr(r.below(s.size()), n)); }
    mon::begin(("set " + cur_set + (kind == 0 ? " truncated" : kind == 1 ? " mutated" : " shifted")).c_str(), s);
    std::unique_ptr<char[]> p(new char[s.size()]); std::memcpy(p.get(), s.data(), s.size());
    auto fac = hp::dynamic_message_factory::create(std::span<const char>(p.get(), s.size()));
    mon::count(fac ? "damaged-accepted" : fac.error() == hp::dynamic_message_errc::descriptor_deserialization_error ? "damaged-undecodable" : "damaged-invalid");
    if (kind == 0) { // a cut inside a file cannot decode
      size_t i = 0; bool at_boundary = s.empty(); for (auto &f : files) { i += join({f}).size(); at_boundary |= i == s.size(); }
      if (!at_boundary && (fac || fac.error() != hp::dynamic_message_errc::descriptor_deserialization_error)) bad("undecodable", "bytes cut at " + std::to_string(s.size()) + (fac ? " are accepted" : " give another error"));
    }
    if (fac) exercise(*fac, mnames);
    mon::seen(cur_set, s);
  }
}
} // namespace
int main(int argc, char **argv) {
  mon::init(argc, argv);
  std::vector<std::string> sets; for (auto &e : std::filesystem::directory_iterator(mon::g.replay)) if (e.path().extension() == ".fds") sets.push_back((e.path().parent_path() / e.path().stem()).string());
  std::ranges::sort(sets);
  for (size_t i = 0; i < sets.size(); ++i) if ((int)(i % (size_t)mon::g.nshards) == mon::g.shard) { Rng r(mon::g.seed * 7919 + i); one_set(sets[i], r); mon::count("sets"); }
  return mon::finish();
}
