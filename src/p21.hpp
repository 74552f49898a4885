// Driver for the descriptor headers of random schemas: prints every embedded descriptor and loads the sets into the runtime factory.
#pragma once
#include <cstdint>
#include <cstdio>
#include <fstream>
#include <hpp_proto/file_descriptor_pb.hpp>
#include <initializer_list>
#include <string>
#include <string_view>
#include <vector>

namespace vp21 {
// in the dynamic unit: the problem with the set, or the number of messages made
std::string load(const std::vector<std::string_view> &files, const std::vector<std::string_view> &names, int &made);

struct driver {
  std::ofstream out;
  driver(int argc, char **argv) { if (argc == 2) out.open(argv[1]); }
  static std::string hex(std::string_view v) {
    static const char *d = "0123456789abcdef";
    std::string s;
    for (unsigned char c : v) { s += d[c >> 4]; s += d[c & 15]; }
    return s.empty() ? "-" : s;
  }
  template <typename Set>
  void file(const char *name, const hpp_proto::file_descriptor_pb &own, const Set &set, std::initializer_list<std::string_view> messages) {
    out << "F\t" << name << "\t" << hex(own.value) << "\n";
    std::vector<std::string_view> files;
    for (const hpp_proto::file_descriptor_pb &f : set) {
      out << "S\t" << name << "\t" << hex(f.value) << "\n";
      files.push_back(f.value);
    }
    out << "E\t" << name << "\n";
    int made = 0;
    auto problem = load(files, messages, made);
    if (!problem.empty()) out << "X\t" << name << "\t" << problem << "\n";
    out << "M\t" << name << "\t" << made << "\n";
  }
  int done() { out << "END\n"; return out.good() ? 0 : 3; }
};
} // namespace vp21
