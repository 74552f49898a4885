// Instantiates the boxes of one proto file with one traits type.
// -DVP_HDR="vp3.pb.hpp" -DVP_ACC="access_vp3.inc" -DVP_MSGS=MESSAGES_vp3 -DVP_TRAITS=... -DVP_NAME="..." -DVP_KEEP=0
#include VP_HDR
#include "box.hpp"
#ifndef VP_SELECT
#define VP_SELECT(id) true
#endif
namespace ref {
#include VP_ACC
namespace {
using TuTraits = VP_TRAITS;
template <class M, int ID, bool On> struct Reg { Reg() { if constexpr (On) boxes().push_back(make_box<M, ID>(VP_NAME, VP_KEEP)); } };
#define VP_REG(id, ...) const Reg<__VA_ARGS__, id, (VP_SELECT(id))> rb_##id{};
VP_MSGS(VP_REG, TuTraits)
} // namespace
} // namespace ref
