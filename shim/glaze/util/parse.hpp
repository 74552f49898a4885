// The one name of glaze that hpp_proto/json/field_mask_codec.hpp uses, with glaze's meaning: the two characters of the
// short JSON escape of a byte (in memory order), or 0.
#pragma once
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <span>
#include <string>
#include <string_view>
namespace glz {
inline constexpr std::array<uint16_t, 256> char_escape_table = [] {
  std::array<uint16_t, 256> t{};
  auto two = [](char c) { return std::bit_cast<uint16_t>(std::array<char, 2>{'\\', c}); };
  t['\b'] = two('b'); t['\t'] = two('t'); t['\n'] = two('n'); t['\f'] = two('f'); t['\r'] = two('r'); t['"'] = two('"'); t['\\'] = two('\\');
  return t;
}();
} // namespace glz
