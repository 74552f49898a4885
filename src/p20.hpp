// Driver for generated code of random schemas. The including file defines, per message type, an entry of `vp20::table`
// and, per field with a default, an entry of `vp20::defaults`.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <hpp_proto/binpb.hpp>
#include <memory_resource>
#include <string>
#include <vector>

namespace vp20 {
inline std::string hex(const void *p, std::size_t n) {
  static const char *d = "0123456789abcdef";
  std::string s;
  for (std::size_t i = 0; i < n; ++i) { auto c = static_cast<const unsigned char *>(p)[i]; s += d[c >> 4]; s += d[c & 15]; }
  return s.empty() ? "-" : s;
}
inline std::string unhex(const std::string &s) {
  std::string r;
  if (s == "-") return r;
  auto v = [](char c) { return c <= '9' ? c - '0' : c - 'a' + 10; };
  for (std::size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(v(s[i]) * 16 + v(s[i + 1]));
  return r;
}

struct entry { const char *name; const char *traits; std::string (*fn)(const std::string &); };
struct deflt { const char *field; std::string (*fn)(); };

// what is written after reading `in`; twice, to see that a message can be reused
template <typename M>
std::string trip(const std::string &in) {
  std::pmr::monotonic_buffer_resource pool;
  M m{}, n{};
  M empty{};
  auto read = [&](M &x) {
    if constexpr (requires { typename M::hpp_proto_traits_type; requires std::is_same_v<typename M::hpp_proto_traits_type, hpp_proto::non_owning_traits> || std::is_same_v<typename M::hpp_proto_traits_type, hpp_proto::keep_unknown_fields<hpp_proto::non_owning_traits>>; })
      return hpp_proto::read_binpb(x, in, hpp_proto::alloc_from{pool});
    else
      return hpp_proto::read_binpb(x, in);
  };
  if (auto s = read(m); !s.ok()) return "!read " + std::to_string(static_cast<int>(s.ec));
  n = m;
  if (!(n == m) && in.find("\x7f\xf8") == std::string::npos) return "!copy differs";
  std::string out, out2;
  if (!hpp_proto::write_binpb(n, out).ok()) return "!write";
  if (!read(n).ok()) return "!second read";
  if (!hpp_proto::write_binpb(n, out2).ok()) return "!second write";
  if (out != out2 && out.size() != out2.size()) return "!second write differs";
  std::string none;
  if (!hpp_proto::write_binpb(empty, none).ok()) return "!write of an empty message";
  n = empty;
  if (!(n == empty)) return "!empty message differs from its copy";
  return hex(out.data(), out.size()) + "\t" + hex(none.data(), none.size());
}

template <typename T>
std::string show(const T &v) {
  if constexpr (std::is_enum_v<T>) return "n:" + std::to_string(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  else if constexpr (std::is_same_v<T, double>) { std::uint64_t b; std::memcpy(&b, &v, 8); return v != v ? "n:nan" : "n:" + std::to_string(b); }
  else if constexpr (std::is_same_v<T, float>) { std::uint32_t b; std::memcpy(&b, &v, 4); return v != v ? "n:nan" : "n:" + std::to_string(b); }
  else if constexpr (std::is_signed_v<T>) return "n:" + std::to_string(static_cast<std::uint64_t>(static_cast<std::int64_t>(v)));
  else if constexpr (std::is_arithmetic_v<T>) return "n:" + std::to_string(static_cast<std::uint64_t>(v));
  else return "s:" + hex(std::data(v), std::size(v));
}
// the value a field has in a default constructed message
template <typename F>
std::string member_default(const F &f) {
  if constexpr (requires { f.has_value(); f.value(); }) {
    if (f.has_value()) return "present";
    return "o\t" + show(std::remove_cvref_t<decltype(f.value())>(f.value()));
  } else return "p\t" + show(f);
}
int other_unit();

inline int run(int argc, char **argv, const std::vector<entry> &table, const std::vector<deflt> &defaults) {
  if (argc != 3) return 2;
  std::ifstream in(argv[1]);
  std::ofstream out(argv[2]);
  std::string line;
  out << "U\t" << other_unit() << "\n";
  for (auto &d : defaults) out << "D\t" << d.field << "\t" << d.fn() << "\n";
  while (std::getline(in, line)) {
    auto t = line.find('\t');
    auto name = line.substr(0, t), bytes = line.substr(t + 1);
    for (auto &e : table)
      if (name == e.name) out << "T\t" << name << "\t" << e.traits << "\t" << bytes << "\t" << e.fn(unhex(bytes)) << "\n";
  }
  out << "END\n";
  return 0;
}
} // namespace vp20
