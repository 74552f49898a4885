// Loads embedded descriptor sets into the runtime factory, for p21.hpp.
#include "p21.hpp"
#include <hpp_proto/dynamic_message/binpb.hpp>
#include <hpp_proto/dynamic_message/factory.hpp>
#include <memory_resource>
#include <utility>

extern "C" bool is_utf8(const char *, std::size_t) { return true; }

namespace vp21 {
namespace hp = hpp_proto;
using Exp = decltype(hp::dynamic_message_factory::create(std::declval<std::span<const char>>()));

template <std::size_t N>
Exp with(const std::vector<std::string_view> &files) {
  hp::distinct_file_descriptor_pb_array<N> a{};
  for (std::size_t i = 0; i < N; ++i) a[i].value = files[i];
  return hp::dynamic_message_factory::create(a);
}
template <std::size_t... I>
std::string go(std::index_sequence<I...>, const std::vector<std::string_view> &files, const std::vector<std::string_view> &names, int &made) {
  std::string r = "set of " + std::to_string(files.size()) + " files";
  auto use = [&](Exp f) {
    r.clear();
    if (!f) { r = "the factory refuses the set: " + std::to_string(static_cast<int>(f.error())); return; }
    for (auto n : names) {
      std::pmr::monotonic_buffer_resource mr;
      auto m = f->get_message(n, mr);
      if (!m.has_value()) { r = "no message " + std::string(n); return; }
      if (m->descriptor().full_name() != n) { r = "message " + std::string(n) + " is named " + std::string(m->descriptor().full_name()); return; }
      std::string out;
      for (auto fd : m->fields()) (void)fd;
      ++made;
    }
    std::pmr::monotonic_buffer_resource mr;
    if (f->get_message("no.such.Message", mr).has_value()) r = "a message that does not exist is found";
  };
  (void)((files.size() == I + 1 && (use(with<I + 1>(files)), true)) || ...);
  return r;
}
std::string load(const std::vector<std::string_view> &files, const std::vector<std::string_view> &names, int &made) {
  return go(std::make_index_sequence<12>{}, files, names, made);
}
} // namespace vp21
