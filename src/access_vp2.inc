// generated by tools/gen_schema.py - do not edit
template <class T> VP_CX void acc_get(const vp2::Leaf<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Leaf<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Leaf<T> *) { return g_msgs[0]; }
template <class T> VP_CX void acc_get(const vp2::Optionals<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Optionals<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Optionals<T> *) { return g_msgs[1]; }
template <class T> VP_CX void acc_get(const vp2::Defaults<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Defaults<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Defaults<T> *) { return g_msgs[2]; }
template <class T> VP_CX void acc_get(const vp2::Required<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Required<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Required<T> *) { return g_msgs[3]; }
template <class T> VP_CX void acc_get(const vp2::Repeateds<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Repeateds<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Repeateds<T> *) { return g_msgs[4]; }
template <class T> VP_CX void acc_get(const vp2::Packed<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Packed<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Packed<T> *) { return g_msgs[5]; }
template <class T> VP_CX void acc_get(const vp2::Groups<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups<T> *) { return g_msgs[6]; }
template <class T> VP_CX void acc_get(const vp2::Groups_::Og<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Og<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups_::Og<T> *) { return g_msgs[7]; }
template <class T> VP_CX void acc_get(const vp2::Groups_::Og_::Rg<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Og_::Rg<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups_::Og_::Rg<T> *) { return g_msgs[8]; }
template <class T> VP_CX void acc_get(const vp2::Groups_::Gr<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Gr<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups_::Gr<T> *) { return g_msgs[9]; }
template <class T> VP_CX void acc_get(const vp2::Groups_::Pg<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Pg<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups_::Pg<T> *) { return g_msgs[10]; }
template <class T> VP_CX void acc_get(const vp2::Groups_::Wide<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Wide<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Groups_::Wide<T> *) { return g_msgs[11]; }
template <class T> VP_CX void acc_get(const vp2::Maps<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Maps<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Maps<T> *) { return g_msgs[12]; }
template <class T> VP_CX void acc_get(const vp2::Ext<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Ext<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Ext<T> *) { return g_msgs[17]; }
template <class T> VP_CX void acc_get(const vp2::ExtHolder<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::ExtHolder<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::ExtHolder<T> *) { return g_msgs[18]; }
template <class T> VP_CX void acc_get(const vp2::Xg<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Xg<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Xg<T> *) { return g_msgs[19]; }
template <class T> VP_CX void acc_get(const vp2::Node<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Node<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Node<T> *) { return g_msgs[20]; }
template <class T> VP_CX void acc_get(const vp2::Node_::Gn<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vp2::Node_::Gn<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vp2::Node_::Gn<T> *) { return g_msgs[21]; }
template <class T> VP_CX void acc_get(const vp2::Leaf<T> &m, Msg &r) {
  fld_get(r, 0, m.id);
  fld_get(r, 1, m.name);
  fld_get(r, 2, m.nums);
  fld_get(r, 3, m.blob);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Leaf<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.id, a);
  fld_set(r, 1, m.name, a);
  fld_set(r, 2, m.nums, a);
  fld_set(r, 3, m.blob, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Optionals<T> &m, Msg &r) {
  fld_get(r, 0, m.f_double);
  fld_get(r, 1, m.f_float);
  fld_get(r, 2, m.f_int32);
  fld_get(r, 3, m.f_int64);
  fld_get(r, 4, m.f_uint32);
  fld_get(r, 5, m.f_uint64);
  fld_get(r, 6, m.f_sint32);
  fld_get(r, 7, m.f_sint64);
  fld_get(r, 8, m.f_fixed32);
  fld_get(r, 9, m.f_fixed64);
  fld_get(r, 10, m.f_sfixed32);
  fld_get(r, 11, m.f_sfixed64);
  fld_get(r, 12, m.f_bool);
  fld_get(r, 13, m.f_string);
  fld_get(r, 14, m.f_bytes);
  fld_get(r, 15, m.f_closed);
  fld_get(r, 16, m.f_leaf);
  fld_get(r, 17, m.f_dense);
  fld_get(r, 18, m.f_nozero);
  fld_get(r, 19, m.f_far);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Optionals<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.f_double, a);
  fld_set(r, 1, m.f_float, a);
  fld_set(r, 2, m.f_int32, a);
  fld_set(r, 3, m.f_int64, a);
  fld_set(r, 4, m.f_uint32, a);
  fld_set(r, 5, m.f_uint64, a);
  fld_set(r, 6, m.f_sint32, a);
  fld_set(r, 7, m.f_sint64, a);
  fld_set(r, 8, m.f_fixed32, a);
  fld_set(r, 9, m.f_fixed64, a);
  fld_set(r, 10, m.f_sfixed32, a);
  fld_set(r, 11, m.f_sfixed64, a);
  fld_set(r, 12, m.f_bool, a);
  fld_set(r, 13, m.f_string, a);
  fld_set(r, 14, m.f_bytes, a);
  fld_set(r, 15, m.f_closed, a);
  fld_set(r, 16, m.f_leaf, a);
  fld_set(r, 17, m.f_dense, a);
  fld_set(r, 18, m.f_nozero, a);
  fld_set(r, 19, m.f_far, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Defaults<T> &m, Msg &r) {
  fld_get(r, 0, m.f_double);
  fld_get(r, 1, m.f_float);
  fld_get(r, 2, m.f_int32);
  fld_get(r, 3, m.f_int64);
  fld_get(r, 4, m.f_uint32);
  fld_get(r, 5, m.f_uint64);
  fld_get(r, 6, m.f_sint32);
  fld_get(r, 7, m.f_bool);
  fld_get(r, 8, m.f_string);
  fld_get(r, 9, m.f_bytes);
  fld_get(r, 10, m.f_closed);
  fld_get(r, 11, m.f_dense);
  fld_get(r, 12, m.f_nan);
  fld_get(r, 13, m.f_ninf);
  fld_get(r, 14, m.f_first);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Defaults<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.f_double, a);
  fld_set(r, 1, m.f_float, a);
  fld_set(r, 2, m.f_int32, a);
  fld_set(r, 3, m.f_int64, a);
  fld_set(r, 4, m.f_uint32, a);
  fld_set(r, 5, m.f_uint64, a);
  fld_set(r, 6, m.f_sint32, a);
  fld_set(r, 7, m.f_bool, a);
  fld_set(r, 8, m.f_string, a);
  fld_set(r, 9, m.f_bytes, a);
  fld_set(r, 10, m.f_closed, a);
  fld_set(r, 11, m.f_dense, a);
  fld_set(r, 12, m.f_nan, a);
  fld_set(r, 13, m.f_ninf, a);
  fld_set(r, 14, m.f_first, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Required<T> &m, Msg &r) {
  fld_get(r, 0, m.a);
  fld_get(r, 1, m.b);
  fld_get(r, 2, m.c);
  fld_get(r, 3, m.d);
  fld_get(r, 4, m.e);
  fld_get(r, 5, m.f);
  fld_get(r, 6, m.next);
  fld_get(r, 7, m.g);
  fld_get(r, 8, m.h);
  fld_get(r, 9, m.i);
  fld_get(r, 10, m.j);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Required<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.a, a);
  fld_set(r, 1, m.b, a);
  fld_set(r, 2, m.c, a);
  fld_set(r, 3, m.d, a);
  fld_set(r, 4, m.e, a);
  fld_set(r, 5, m.f, a);
  fld_set(r, 6, m.next, a);
  fld_set(r, 7, m.g, a);
  fld_set(r, 8, m.h, a);
  fld_set(r, 9, m.i, a);
  fld_set(r, 10, m.j, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Repeateds<T> &m, Msg &r) {
  fld_get(r, 0, m.r_double);
  fld_get(r, 1, m.r_float);
  fld_get(r, 2, m.r_int32);
  fld_get(r, 3, m.r_int64);
  fld_get(r, 4, m.r_uint32);
  fld_get(r, 5, m.r_uint64);
  fld_get(r, 6, m.r_sint32);
  fld_get(r, 7, m.r_sint64);
  fld_get(r, 8, m.r_fixed32);
  fld_get(r, 9, m.r_fixed64);
  fld_get(r, 10, m.r_sfixed32);
  fld_get(r, 11, m.r_sfixed64);
  fld_get(r, 12, m.r_bool);
  fld_get(r, 13, m.r_string);
  fld_get(r, 14, m.r_bytes);
  fld_get(r, 15, m.r_closed);
  fld_get(r, 16, m.r_leaf);
  fld_get(r, 17, m.r_dense);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Repeateds<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.r_double, a);
  fld_set(r, 1, m.r_float, a);
  fld_set(r, 2, m.r_int32, a);
  fld_set(r, 3, m.r_int64, a);
  fld_set(r, 4, m.r_uint32, a);
  fld_set(r, 5, m.r_uint64, a);
  fld_set(r, 6, m.r_sint32, a);
  fld_set(r, 7, m.r_sint64, a);
  fld_set(r, 8, m.r_fixed32, a);
  fld_set(r, 9, m.r_fixed64, a);
  fld_set(r, 10, m.r_sfixed32, a);
  fld_set(r, 11, m.r_sfixed64, a);
  fld_set(r, 12, m.r_bool, a);
  fld_set(r, 13, m.r_string, a);
  fld_set(r, 14, m.r_bytes, a);
  fld_set(r, 15, m.r_closed, a);
  fld_set(r, 16, m.r_leaf, a);
  fld_set(r, 17, m.r_dense, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Packed<T> &m, Msg &r) {
  fld_get(r, 0, m.r_double);
  fld_get(r, 1, m.r_float);
  fld_get(r, 2, m.r_int32);
  fld_get(r, 3, m.r_int64);
  fld_get(r, 4, m.r_uint32);
  fld_get(r, 5, m.r_uint64);
  fld_get(r, 6, m.r_sint32);
  fld_get(r, 7, m.r_sint64);
  fld_get(r, 8, m.r_fixed32);
  fld_get(r, 9, m.r_fixed64);
  fld_get(r, 10, m.r_sfixed32);
  fld_get(r, 11, m.r_sfixed64);
  fld_get(r, 12, m.r_bool);
  fld_get(r, 13, m.r_closed);
  fld_get(r, 14, m.r_dense);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Packed<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.r_double, a);
  fld_set(r, 1, m.r_float, a);
  fld_set(r, 2, m.r_int32, a);
  fld_set(r, 3, m.r_int64, a);
  fld_set(r, 4, m.r_uint32, a);
  fld_set(r, 5, m.r_uint64, a);
  fld_set(r, 6, m.r_sint32, a);
  fld_set(r, 7, m.r_sint64, a);
  fld_set(r, 8, m.r_fixed32, a);
  fld_set(r, 9, m.r_fixed64, a);
  fld_set(r, 10, m.r_sfixed32, a);
  fld_set(r, 11, m.r_sfixed64, a);
  fld_set(r, 12, m.r_bool, a);
  fld_set(r, 13, m.r_closed, a);
  fld_set(r, 14, m.r_dense, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups<T> &m, Msg &r) {
  fld_get(r, 0, m.pre);
  fld_get(r, 1, m.og);
  fld_get(r, 2, m.gr);
  one_get(r, std::array<int, 5>{3,4,5,6,7}, m.pick);
  fld_get(r, 8, m.wide);
  fld_get(r, 9, m.tail);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.pre, a);
  fld_set(r, 1, m.og, a);
  fld_set(r, 2, m.gr, a);
  one_set(r, std::array<int, 5>{3,4,5,6,7}, m.pick, a);
  fld_set(r, 8, m.wide, a);
  fld_set(r, 9, m.tail, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups_::Og<T> &m, Msg &r) {
  fld_get(r, 0, m.a);
  fld_get(r, 1, m.s);
  fld_get(r, 2, m.rg);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Og<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.a, a);
  fld_set(r, 1, m.s, a);
  fld_set(r, 2, m.rg, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups_::Og_::Rg<T> &m, Msg &r) {
  fld_get(r, 0, m.x);
  fld_get(r, 1, m.deep);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Og_::Rg<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.x, a);
  fld_set(r, 1, m.deep, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups_::Gr<T> &m, Msg &r) {
  fld_get(r, 0, m.b);
  fld_get(r, 1, m.r);
  fld_get(r, 2, m.c);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Gr<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.b, a);
  fld_set(r, 1, m.r, a);
  fld_set(r, 2, m.c, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups_::Pg<T> &m, Msg &r) {
  fld_get(r, 0, m.q);
  fld_get(r, 1, m.t);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Pg<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.q, a);
  fld_set(r, 1, m.t, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Groups_::Wide<T> &m, Msg &r) {
  fld_get(r, 0, m.w);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Groups_::Wide<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.w, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Maps<T> &m, Msg &r) {
  fld_get(r, 0, m.m_i32_closed);
  fld_get(r, 1, m.m_str_leaf);
  fld_get(r, 2, m.m_bool_closed);
  fld_get(r, 3, m.m_str_bytes);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Maps<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.m_i32_closed, a);
  fld_set(r, 1, m.m_str_leaf, a);
  fld_set(r, 2, m.m_bool_closed, a);
  fld_set(r, 3, m.m_str_bytes, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Ext<T> &m, Msg &r) {
  fld_get(r, 0, m.base);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Ext<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.base, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::ExtHolder<T> &m, Msg &r) {
  fld_get(r, 0, m.ext);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::ExtHolder<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.ext, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Xg<T> &m, Msg &r) {
  fld_get(r, 0, m.g);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Xg<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.g, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Node<T> &m, Msg &r) {
  fld_get(r, 0, m.v);
  fld_get(r, 1, m.child);
  fld_get(r, 2, m.kids);
  fld_get(r, 3, m.gn);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Node<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.v, a);
  fld_set(r, 1, m.child, a);
  fld_set(r, 2, m.kids, a);
  fld_set(r, 3, m.gn, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vp2::Node_::Gn<T> &m, Msg &r) {
  fld_get(r, 0, m.in);
  fld_get(r, 1, m.k);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vp2::Node_::Gn<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.in, a);
  fld_set(r, 1, m.k, a);
  (void)m; (void)r; (void)a;
}
#define MESSAGES_vp2(X, T) \
  X(0, vp2::Leaf<T>) \
  X(1, vp2::Optionals<T>) \
  X(2, vp2::Defaults<T>) \
  X(3, vp2::Required<T>) \
  X(4, vp2::Repeateds<T>) \
  X(5, vp2::Packed<T>) \
  X(6, vp2::Groups<T>) \
  X(7, vp2::Groups_::Og<T>) \
  X(8, vp2::Groups_::Og_::Rg<T>) \
  X(9, vp2::Groups_::Gr<T>) \
  X(10, vp2::Groups_::Pg<T>) \
  X(11, vp2::Groups_::Wide<T>) \
  X(12, vp2::Maps<T>) \
  X(17, vp2::Ext<T>) \
  X(18, vp2::ExtHolder<T>) \
  X(19, vp2::Xg<T>) \
  X(20, vp2::Node<T>) \
  X(21, vp2::Node_::Gn<T>) \

