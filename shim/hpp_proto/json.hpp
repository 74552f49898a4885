// Stands in for the glaze-based header: duration_codec.hpp takes only these two functions from it.
#pragma once
#include <cassert>
#include <charconv>
#include <cstdint>
#include <span>
#include <string>
#include <string_view>
namespace glz {
inline char *to_chars(char *buf, uint64_t v) noexcept { return std::to_chars(buf, buf + 24, v).ptr; }
template <char c> inline void dump(auto &&b, auto &&ix) noexcept { b[ix] = c; ++ix; }
} // namespace glz
