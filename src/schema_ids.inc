// generated by tools/gen_schema.py - do not edit
enum MsgId {
  ID_vp2_Leaf = 0,
  ID_vp2_Optionals = 1,
  ID_vp2_Defaults = 2,
  ID_vp2_Required = 3,
  ID_vp2_Repeateds = 4,
  ID_vp2_Packed = 5,
  ID_vp2_Groups = 6,
  ID_vp2_Groups_Og = 7,
  ID_vp2_Groups_Og_Rg = 8,
  ID_vp2_Groups_Gr = 9,
  ID_vp2_Groups_Pg = 10,
  ID_vp2_Groups_Wide = 11,
  ID_vp2_Maps = 12,
  ID_vp2_Maps_MI32ClosedEntry = 13,
  ID_vp2_Maps_MStrLeafEntry = 14,
  ID_vp2_Maps_MBoolClosedEntry = 15,
  ID_vp2_Maps_MStrBytesEntry = 16,
  ID_vp2_Ext = 17,
  ID_vp2_ExtHolder = 18,
  ID_vp2_Xg = 19,
  ID_vp2_Node = 20,
  ID_vp2_Node_Gn = 21,
  ID_vp3_Scalars = 22,
  ID_vp3_Leaf = 23,
  ID_vp3_Optionals = 24,
  ID_vp3_Repeateds = 25,
  ID_vp3_Unpacked = 26,
  ID_vp3_Maps = 27,
  ID_vp3_Maps_MI32I32Entry = 28,
  ID_vp3_Maps_MI64DoubleEntry = 29,
  ID_vp3_Maps_MU32BytesEntry = 30,
  ID_vp3_Maps_MU64FloatEntry = 31,
  ID_vp3_Maps_MS32S64Entry = 32,
  ID_vp3_Maps_MS64U32Entry = 33,
  ID_vp3_Maps_MF32F64Entry = 34,
  ID_vp3_Maps_MF64Sf32Entry = 35,
  ID_vp3_Maps_MSf32StrEntry = 36,
  ID_vp3_Maps_MSf64BoolEntry = 37,
  ID_vp3_Maps_MBoolColorEntry = 38,
  ID_vp3_Maps_MStrLeafEntry = 39,
  ID_vp3_Maps_MStrStrEntry = 40,
  ID_vp3_Maps_MI32MapsEntry = 41,
  ID_vp3_Oneofs = 42,
  ID_vp3_Node = 43,
  ID_vp3_Node_KmapEntry = 44,
  ID_vp3_NodeB = 45,
  ID_vp3_Sparse = 46,
  ID_vp3_Sparse_MpEntry = 47,
  ID_vp3_Empty = 48,
  ID_vp3_WithEmpty = 49,
  ID_vp3_WithEmpty_EmEntry = 50,
  ID_vp3_BigNums = 51,
  ID_vp3_BigNums_KEntry = 52,
  ID_vp3_Many = 53,
  ID_vp3_Many_H8Entry = 54,
  ID_vpe_Leaf = 55,
  ID_vpe_Ed = 56,
  ID_vpe_Ed_MssEntry = 57,
  ID_vpe_Ed_MscEntry = 58,
  ID_vpe_Ed_MioEntry = 59,
  ID_vpe_Ed_MslEntry = 60,
};
