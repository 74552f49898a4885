// generated by tools/gen_schema.py - do not edit
template <class T> VP_CX void acc_get(const vpe::Leaf<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vpe::Leaf<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vpe::Leaf<T> *) { return g_msgs[55]; }
template <class T> VP_CX void acc_get(const vpe::Ed<T> &m, Msg &r);
template <class T, class A> VP_CX void acc_set(vpe::Ed<T> &m, const Msg &r, A &a);
template <class T> VP_CX const MsgDesc &acc_desc(const vpe::Ed<T> *) { return g_msgs[56]; }
template <class T> VP_CX void acc_get(const vpe::Leaf<T> &m, Msg &r) {
  fld_get(r, 0, m.id);
  fld_get(r, 1, m.name);
  fld_get(r, 2, m.nums);
  fld_get(r, 3, m.blob);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vpe::Leaf<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.id, a);
  fld_set(r, 1, m.name, a);
  fld_set(r, 2, m.nums, a);
  fld_set(r, 3, m.blob, a);
  (void)m; (void)r; (void)a;
}
template <class T> VP_CX void acc_get(const vpe::Ed<T> &m, Msg &r) {
  fld_get(r, 0, m.exp);
  fld_get(r, 1, m.imp);
  fld_get(r, 2, m.req);
  fld_get(r, 3, m.delim);
  fld_get(r, 4, m.lp);
  fld_get(r, 5, m.rdelim);
  fld_get(r, 6, m.closed);
  fld_get(r, 7, m.open);
  fld_get(r, 8, m.iopen);
  fld_get(r, 9, m.expanded);
  fld_get(r, 10, m.packed);
  fld_get(r, 11, m.rclosed);
  fld_get(r, 12, m.ropen);
  fld_get(r, 13, m.xclosed);
  fld_get(r, 14, m.sv);
  fld_get(r, 15, m.sn);
  fld_get(r, 16, m.isv);
  fld_get(r, 17, m.rsv);
  fld_get(r, 18, m.rsn);
  fld_get(r, 19, m.mss);
  fld_get(r, 20, m.msc);
  fld_get(r, 21, m.mio);
  one_get(r, std::array<int, 6>{22,23,24,25,26,27}, m.pick);
  fld_get(r, 28, m.idbl);
  fld_get(r, 29, m.iflt);
  fld_get(r, 30, m.ibytes);
  fld_get(r, 31, m.ibool);
  fld_get(r, 32, m.dsint);
  fld_get(r, 33, m.dstr);
  fld_get(r, 34, m.dclosed);
  fld_get(r, 35, m.self);
  fld_get(r, 36, m.dself);
  fld_get(r, 37, m.msl);
  unk_get(r, m.unknown_fields_);
  (void)m; (void)r;
}
template <class T, class A> VP_CX void acc_set(vpe::Ed<T> &m, const Msg &r, A &a) {
  fld_set(r, 0, m.exp, a);
  fld_set(r, 1, m.imp, a);
  fld_set(r, 2, m.req, a);
  fld_set(r, 3, m.delim, a);
  fld_set(r, 4, m.lp, a);
  fld_set(r, 5, m.rdelim, a);
  fld_set(r, 6, m.closed, a);
  fld_set(r, 7, m.open, a);
  fld_set(r, 8, m.iopen, a);
  fld_set(r, 9, m.expanded, a);
  fld_set(r, 10, m.packed, a);
  fld_set(r, 11, m.rclosed, a);
  fld_set(r, 12, m.ropen, a);
  fld_set(r, 13, m.xclosed, a);
  fld_set(r, 14, m.sv, a);
  fld_set(r, 15, m.sn, a);
  fld_set(r, 16, m.isv, a);
  fld_set(r, 17, m.rsv, a);
  fld_set(r, 18, m.rsn, a);
  fld_set(r, 19, m.mss, a);
  fld_set(r, 20, m.msc, a);
  fld_set(r, 21, m.mio, a);
  one_set(r, std::array<int, 6>{22,23,24,25,26,27}, m.pick, a);
  fld_set(r, 28, m.idbl, a);
  fld_set(r, 29, m.iflt, a);
  fld_set(r, 30, m.ibytes, a);
  fld_set(r, 31, m.ibool, a);
  fld_set(r, 32, m.dsint, a);
  fld_set(r, 33, m.dstr, a);
  fld_set(r, 34, m.dclosed, a);
  fld_set(r, 35, m.self, a);
  fld_set(r, 36, m.dself, a);
  fld_set(r, 37, m.msl, a);
  (void)m; (void)r; (void)a;
}
#define MESSAGES_vpe(X, T) \
  X(55, vpe::Leaf<T>) \
  X(56, vpe::Ed<T>) \

