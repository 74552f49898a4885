// generated by tools/gen_schema.py - do not edit
template <class T> VP_CX void acc_get(const vp3::Scalars<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Scalars<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Scalars<T> *) { return g_msgs[22]; }
template <class T> VP_CX void acc_get(const vp3::Leaf<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Leaf<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Leaf<T> *) { return g_msgs[23]; }
template <class T> VP_CX void acc_get(const vp3::Optionals<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Optionals<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Optionals<T> *) { return g_msgs[24]; }
template <class T> VP_CX void acc_get(const vp3::Repeateds<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Repeateds<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Repeateds<T> *) { return g_msgs[25]; }
template <class T> VP_CX void acc_get(const vp3::Unpacked<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Unpacked<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Unpacked<T> *) { return g_msgs[26]; }
template <class T> VP_CX void acc_get(const vp3::Maps<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Maps<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Maps<T> *) { return g_msgs[27]; }
template <class T> VP_CX void acc_get(const vp3::Oneofs<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Oneofs<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Oneofs<T> *) { return g_msgs[42]; }
template <class T> VP_CX void acc_get(const vp3::Node<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Node<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Node<T> *) { return g_msgs[43]; }
template <class T> VP_CX void acc_get(const vp3::NodeB<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::NodeB<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::NodeB<T> *) { return g_msgs[45]; }
template <class T> VP_CX void acc_get(const vp3::Sparse<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Sparse<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Sparse<T> *) { return g_msgs[46]; }
template <class T> VP_CX void acc_get(const vp3::Empty<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Empty<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Empty<T> *) { return g_msgs[48]; }
template <class T> VP_CX void acc_get(const vp3::WithEmpty<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::WithEmpty<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::WithEmpty<T> *) { return g_msgs[49]; }
template <class T> VP_CX void acc_get(const vp3::BigNums<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::BigNums<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::BigNums<T> *) { return g_msgs[51]; }
template <class T> VP_CX void acc_get(const vp3::Many<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp3::Many<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp3::Many<T> *) { return g_msgs[53]; }
template <class T> VP_CX void acc_get(const vp3::Scalars<T> &m, Msg &r) {
  fld_get(r, 0, m.f_double);
  fld_get(r, 1, m.f_float);
  fld_get(r, 2, m.f_int32);
  fld_get(r, 3, m.f_int64);
  fld_get(r, 4, m.f_uint32);
  fld_get(r, 5, m.f_uint64);
  fld_get(r, 6, m.f_sint32);
  fld_get(r, 7, m.f_sint64);
  fld_get(r, 8, m.f_fixed32);
  fld_get(r, 9, m.f_fixed64);
  fld_get(r, 10, m.f_sfixed32);
  fld_get(r, 11, m.f_sfixed64);
  fld_get(r, 12, m.f_bool);
  fld_get(r, 13, m.f_string);
  fld_get(r, 14, m.f_bytes);
  fld_get(r, 15, m.f_color);
  fld_get(r, 16, m.f_leaf);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Scalars<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.f_double, a);
  fld_set(r, 1, m.f_float, a);
  fld_set(r, 2, m.f_int32, a);
  fld_set(r, 3, m.f_int64, a);
  fld_set(r, 4, m.f_uint32, a);
  fld_set(r, 5, m.f_uint64, a);
  fld_set(r, 6, m.f_sint32, a);
  fld_set(r, 7, m.f_sint64, a);
  fld_set(r, 8, m.f_fixed32, a);
  fld_set(r, 9, m.f_fixed64, a);
  fld_set(r, 10, m.f_sfixed32, a);
  fld_set(r, 11, m.f_sfixed64, a);
  fld_set(r, 12, m.f_bool, a);
  fld_set(r, 13, m.f_string, a);
  fld_set(r, 14, m.f_bytes, a);
  fld_set(r, 15, m.f_color, a);
  fld_set(r, 16, m.f_leaf, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Leaf<T> &m, Msg &r) {
  fld_get(r, 0, m.id);
  fld_get(r, 1, m.name);
  fld_get(r, 2, m.nums);
  fld_get(r, 3, m.blob);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Leaf<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.id, a);
  fld_set(r, 1, m.name, a);
  fld_set(r, 2, m.nums, a);
  fld_set(r, 3, m.blob, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Optionals<T> &m, Msg &r) {
  fld_get(r, 0, m.f_double);
  fld_get(r, 1, m.f_float);
  fld_get(r, 2, m.f_int32);
  fld_get(r, 3, m.f_int64);
  fld_get(r, 4, m.f_uint32);
  fld_get(r, 5, m.f_uint64);
  fld_get(r, 6, m.f_sint32);
  fld_get(r, 7, m.f_sint64);
  fld_get(r, 8, m.f_fixed32);
  fld_get(r, 9, m.f_fixed64);
  fld_get(r, 10, m.f_sfixed32);
  fld_get(r, 11, m.f_sfixed64);
  fld_get(r, 12, m.f_bool);
  fld_get(r, 13, m.f_string);
  fld_get(r, 14, m.f_bytes);
  fld_get(r, 15, m.f_color);
  fld_get(r, 16, m.f_leaf);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Optionals<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.f_double, a);
  fld_set(r, 1, m.f_float, a);
  fld_set(r, 2, m.f_int32, a);
  fld_set(r, 3, m.f_int64, a);
  fld_set(r, 4, m.f_uint32, a);
  fld_set(r, 5, m.f_uint64, a);
  fld_set(r, 6, m.f_sint32, a);
  fld_set(r, 7, m.f_sint64, a);
  fld_set(r, 8, m.f_fixed32, a);
  fld_set(r, 9, m.f_fixed64, a);
  fld_set(r, 10, m.f_sfixed32, a);
  fld_set(r, 11, m.f_sfixed64, a);
  fld_set(r, 12, m.f_bool, a);
  fld_set(r, 13, m.f_string, a);
  fld_set(r, 14, m.f_bytes, a);
  fld_set(r, 15, m.f_color, a);
  fld_set(r, 16, m.f_leaf, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Repeateds<T> &m, Msg &r) {
  fld_get(r, 0, m.r_double);
  fld_get(r, 1, m.r_float);
  fld_get(r, 2, m.r_int32);
  fld_get(r, 3, m.r_int64);
  fld_get(r, 4, m.r_uint32);
  fld_get(r, 5, m.r_uint64);
  fld_get(r, 6, m.r_sint32);
  fld_get(r, 7, m.r_sint64);
  fld_get(r, 8, m.r_fixed32);
  fld_get(r, 9, m.r_fixed64);
  fld_get(r, 10, m.r_sfixed32);
  fld_get(r, 11, m.r_sfixed64);
  fld_get(r, 12, m.r_bool);
  fld_get(r, 13, m.r_string);
  fld_get(r, 14, m.r_bytes);
  fld_get(r, 15, m.r_color);
  fld_get(r, 16, m.r_leaf);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Repeateds<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.r_double, a);
  fld_set(r, 1, m.r_float, a);
  fld_set(r, 2, m.r_int32, a);
  fld_set(r, 3, m.r_int64, a);
  fld_set(r, 4, m.r_uint32, a);
  fld_set(r, 5, m.r_uint64, a);
  fld_set(r, 6, m.r_sint32, a);
  fld_set(r, 7, m.r_sint64, a);
  fld_set(r, 8, m.r_fixed32, a);
  fld_set(r, 9, m.r_fixed64, a);
  fld_set(r, 10, m.r_sfixed32, a);
  fld_set(r, 11, m.r_sfixed64, a);
  fld_set(r, 12, m.r_bool, a);
  fld_set(r, 13, m.r_string, a);
  fld_set(r, 14, m.r_bytes, a);
  fld_set(r, 15, m.r_color, a);
  fld_set(r, 16, m.r_leaf, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Unpacked<T> &m, Msg &r) {
  fld_get(r, 0, m.r_double);
  fld_get(r, 1, m.r_float);
  fld_get(r, 2, m.r_int32);
  fld_get(r, 3, m.r_int64);
  fld_get(r, 4, m.r_uint32);
  fld_get(r, 5, m.r_uint64);
  fld_get(r, 6, m.r_sint32);
  fld_get(r, 7, m.r_sint64);
  fld_get(r, 8, m.r_fixed32);
  fld_get(r, 9, m.r_fixed64);
  fld_get(r, 10, m.r_sfixed32);
  fld_get(r, 11, m.r_sfixed64);
  fld_get(r, 12, m.r_bool);
  fld_get(r, 13, m.r_color);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Unpacked<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.r_double, a);
  fld_set(r, 1, m.r_float, a);
  fld_set(r, 2, m.r_int32, a);
  fld_set(r, 3, m.r_int64, a);
  fld_set(r, 4, m.r_uint32, a);
  fld_set(r, 5, m.r_uint64, a);
  fld_set(r, 6, m.r_sint32, a);
  fld_set(r, 7, m.r_sint64, a);
  fld_set(r, 8, m.r_fixed32, a);
  fld_set(r, 9, m.r_fixed64, a);
  fld_set(r, 10, m.r_sfixed32, a);
  fld_set(r, 11, m.r_sfixed64, a);
  fld_set(r, 12, m.r_bool, a);
  fld_set(r, 13, m.r_color, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Maps<T> &m, Msg &r) {
  fld_get(r, 0, m.m_i32_i32);
  fld_get(r, 1, m.m_i64_double);
  fld_get(r, 2, m.m_u32_bytes);
  fld_get(r, 3, m.m_u64_float);
  fld_get(r, 4, m.m_s32_s64);
  fld_get(r, 5, m.m_s64_u32);
  fld_get(r, 6, m.m_f32_f64);
  fld_get(r, 7, m.m_f64_sf32);
  fld_get(r, 8, m.m_sf32_str);
  fld_get(r, 9, m.m_sf64_bool);
  fld_get(r, 10, m.m_bool_color);
  fld_get(r, 11, m.m_str_leaf);
  fld_get(r, 12, m.m_str_str);
  fld_get(r, 13, m.m_i32_maps);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Maps<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.m_i32_i32, a);
  fld_set(r, 1, m.m_i64_double, a);
  fld_set(r, 2, m.m_u32_bytes, a);
  fld_set(r, 3, m.m_u64_float, a);
  fld_set(r, 4, m.m_s32_s64, a);
  fld_set(r, 5, m.m_s64_u32, a);
  fld_set(r, 6, m.m_f32_f64, a);
  fld_set(r, 7, m.m_f64_sf32, a);
  fld_set(r, 8, m.m_sf32_str, a);
  fld_set(r, 9, m.m_sf64_bool, a);
  fld_set(r, 10, m.m_bool_color, a);
  fld_set(r, 11, m.m_str_leaf, a);
  fld_set(r, 12, m.m_str_str, a);
  fld_set(r, 13, m.m_i32_maps, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Oneofs<T> &m, Msg &r) {
  fld_get(r, 0, m.before);
  one_get(r, std::array<int, 10>{1,2,3,4,5,6,7,8,9,10}, m.pick);
  fld_get(r, 11, m.after);
  one_get(r, std::array<int, 4>{12,13,14,15}, m.other);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Oneofs<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.before, a);
  one_set(r, std::array<int, 10>{1,2,3,4,5,6,7,8,9,10}, m.pick, a);
  fld_set(r, 11, m.after, a);
  one_set(r, std::array<int, 4>{12,13,14,15}, m.other, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Node<T> &m, Msg &r) {
  fld_get(r, 0, m.v);
  fld_get(r, 1, m.child);
  fld_get(r, 2, m.kids);
  fld_get(r, 3, m.kmap);
  one_get(r, std::array<int, 2>{4,5}, m.alt);
  fld_get(r, 6, m.b);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Node<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.v, a);
  fld_set(r, 1, m.child, a);
  fld_set(r, 2, m.kids, a);
  fld_set(r, 3, m.kmap, a);
  one_set(r, std::array<int, 2>{4,5}, m.alt, a);
  fld_set(r, 6, m.b, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::NodeB<T> &m, Msg &r) {
  fld_get(r, 0, m.back);
  fld_get(r, 1, m.xs);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::NodeB<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.back, a);
  fld_set(r, 1, m.xs, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Sparse<T> &m, Msg &r) {
  fld_get(r, 0, m.s);
  fld_get(r, 1, m.a);
  fld_get(r, 2, m.p);
  fld_get(r, 3, m.b);
  fld_get(r, 4, m.m);
  fld_get(r, 5, m.mp);
  one_get(r, std::array<int, 2>{6,7}, m.w);
  fld_get(r, 8, m.last);
  fld_get(r, 9, m.pastres);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Sparse<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.s, a);
  fld_set(r, 1, m.a, a);
  fld_set(r, 2, m.p, a);
  fld_set(r, 3, m.b, a);
  fld_set(r, 4, m.m, a);
  fld_set(r, 5, m.mp, a);
  one_set(r, std::array<int, 2>{6,7}, m.w, a);
  fld_set(r, 8, m.last, a);
  fld_set(r, 9, m.pastres, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Empty<T> &m, Msg &r) {
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Empty<T> &m, const Msg &r, A &a) {
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::WithEmpty<T> &m, Msg &r) {
  fld_get(r, 0, m.e);
  fld_get(r, 1, m.es);
  fld_get(r, 2, m.em);
  fld_get(r, 3, m.oe);
  one_get(r, std::array<int, 2>{4,5}, m.x);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::WithEmpty<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.e, a);
  fld_set(r, 1, m.es, a);
  fld_set(r, 2, m.em, a);
  fld_set(r, 3, m.oe, a);
  one_set(r, std::array<int, 2>{4,5}, m.x, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::BigNums<T> &m, Msg &r) {
  fld_get(r, 0, m.a);
  fld_get(r, 1, m.b);
  fld_get(r, 2, m.c);
  fld_get(r, 3, m.d);
  fld_get(r, 4, m.e);
  fld_get(r, 5, m.f);
  fld_get(r, 6, m.g);
  fld_get(r, 7, m.h);
  fld_get(r, 8, m.i);
  fld_get(r, 9, m.j);
  fld_get(r, 10, m.k);
  fld_get(r, 11, m.l);
  one_get(r, std::array<int, 3>{12,13,14}, m.o);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::BigNums<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.a, a);
  fld_set(r, 1, m.b, a);
  fld_set(r, 2, m.c, a);
  fld_set(r, 3, m.d, a);
  fld_set(r, 4, m.e, a);
  fld_set(r, 5, m.f, a);
  fld_set(r, 6, m.g, a);
  fld_set(r, 7, m.h, a);
  fld_set(r, 8, m.i, a);
  fld_set(r, 9, m.j, a);
  fld_set(r, 10, m.k, a);
  fld_set(r, 11, m.l, a);
  one_set(r, std::array<int, 3>{12,13,14}, m.o, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp3::Many<T> &m, Msg &r) {
  fld_get(r, 0, m.f1);
  fld_get(r, 1, m.f2);
  fld_get(r, 2, m.f3);
  fld_get(r, 3, m.f4);
  fld_get(r, 4, m.f5);
  fld_get(r, 5, m.f6);
  fld_get(r, 6, m.f7);
  fld_get(r, 7, m.f8);
  fld_get(r, 8, m.g1);
  fld_get(r, 9, m.g2);
  fld_get(r, 10, m.g3);
  fld_get(r, 11, m.g4);
  fld_get(r, 12, m.g5);
  fld_get(r, 13, m.g6);
  fld_get(r, 14, m.g7);
  fld_get(r, 15, m.g8);
  fld_get(r, 16, m.h1);
  fld_get(r, 17, m.h2);
  fld_get(r, 18, m.h3);
  fld_get(r, 19, m.h4);
  fld_get(r, 20, m.h5);
  fld_get(r, 21, m.h6);
  fld_get(r, 22, m.h7);
  fld_get(r, 23, m.h8);
  fld_get(r, 24, m.i1);
  fld_get(r, 25, m.i2);
  fld_get(r, 26, m.i3);
  fld_get(r, 27, m.i4);
  fld_get(r, 28, m.i5);
  fld_get(r, 29, m.i6);
  fld_get(r, 30, m.i7);
  fld_get(r, 31, m.i8);
  fld_get(r, 32, m.i9);
  fld_get(r, 33, m.i10);
  fld_get(r, 34, m.i11);
  fld_get(r, 35, m.i12);
  fld_get(r, 36, m.i13);
  fld_get(r, 37, m.i14);
  one_get(r, std::array<int, 3>{38,39,40}, m.q);
  fld_get(r, 41, m.q4);
  fld_get(r, 42, m.q5);
  fld_get(r, 43, m.q6);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp3::Many<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.f1, a);
  fld_set(r, 1, m.f2, a);
  fld_set(r, 2, m.f3, a);
  fld_set(r, 3, m.f4, a);
  fld_set(r, 4, m.f5, a);
  fld_set(r, 5, m.f6, a);
  fld_set(r, 6, m.f7, a);
  fld_set(r, 7, m.f8, a);
  fld_set(r, 8, m.g1, a);
  fld_set(r, 9, m.g2, a);
  fld_set(r, 10, m.g3, a);
  fld_set(r, 11, m.g4, a);
  fld_set(r, 12, m.g5, a);
  fld_set(r, 13, m.g6, a);
  fld_set(r, 14, m.g7, a);
  fld_set(r, 15, m.g8, a);
  fld_set(r, 16, m.h1, a);
  fld_set(r, 17, m.h2, a);
  fld_set(r, 18, m.h3, a);
  fld_set(r, 19, m.h4, a);
  fld_set(r, 20, m.h5, a);
  fld_set(r, 21, m.h6, a);
  fld_set(r, 22, m.h7, a);
  fld_set(r, 23, m.h8, a);
  fld_set(r, 24, m.i1, a);
  fld_set(r, 25, m.i2, a);
  fld_set(r, 26, m.i3, a);
  fld_set(r, 27, m.i4, a);
  fld_set(r, 28, m.i5, a);
  fld_set(r, 29, m.i6, a);
  fld_set(r, 30, m.i7, a);
  fld_set(r, 31, m.i8, a);
  fld_set(r, 32, m.i9, a);
  fld_set(r, 33, m.i10, a);
  fld_set(r, 34, m.i11, a);
  fld_set(r, 35, m.i12, a);
  fld_set(r, 36, m.i13, a);
  fld_set(r, 37, m.i14, a);
  one_set(r, std::array<int, 3>{38,39,40}, m.q, a);
  fld_set(r, 41, m.q4, a);
  fld_set(r, 42, m.q5, a);
  fld_set(r, 43, m.q6, a);
  (void)m; (void)r; (void)a;
}
#define MESSAGES_vp3(X, T) \
  X(22, vp3::Scalars<T>) \
  X(23, vp3::Leaf<T>) \
  X(24, vp3::Optionals<T>) \
  X(25, vp3::Repeateds<T>) \
  X(26, vp3::Unpacked<T>) \
  X(27, vp3::Maps<T>) \
  X(42, vp3::Oneofs<T>) \
  X(43, vp3::Node<T>) \
  X(45, vp3::NodeB<T>) \
  X(46, vp3::Sparse<T>) \
  X(48, vp3::Empty<T>) \
  X(49, vp3::WithEmpty<T>) \
  X(51, vp3::BigNums<T>) \
  X(53, vp3::Many<T>) \

