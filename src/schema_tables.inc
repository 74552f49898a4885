// generated by tools/gen_schema.py - do not edit
static const int32_t ev_0[] = {1,2,-5,0,1000000};
static const char *const en_0[] = {"C_ONE","C_TWO","C_NEG","C_ZERO","C_BIG"};
static const int32_t ev_1[] = {0,1,7};
static const char *const en_1[] = {"MC_ZERO","MC_ONE","MC_SEVEN"};
static const int32_t ev_2[] = {3,4,INT32_MIN,2147483647};
static const char *const en_2[] = {"NZ_A","NZ_B","NZ_C","NZ_D"};
static const int32_t ev_3[] = {INT32_MIN,2147483647};
static const char *const en_3[] = {"F_LOW","F_HIGH"};
static const int32_t ev_4[] = {10,11,12,13};
static const char *const en_4[] = {"D0","D1","D2","D3"};
static const int32_t ev_5[] = {0,1,2,2147483647,-1,INT32_MIN};
static const char *const en_5[] = {"COLOR_ZERO","RED","BLUE","BIG","NEG","MIN"};
static const int32_t ev_6[] = {0,5,5};
static const char *const en_6[] = {"AL_ZERO","AL_A","AL_B"};
static const int32_t ev_7[] = {0,1,-3};
static const char *const en_7[] = {"O_ZERO","O_ONE","O_NEG"};
static const int32_t ev_8[] = {2,9,-1};
static const char *const en_8[] = {"C_TWO","C_NINE","C_MINUS"};
static const int32_t ev_9[] = {0,1,7};
static const char *const en_9[] = {"MC_ZERO","MC_ONE","MC_SEVEN"};
static const EnumDesc g_enums[] = {
  {"vp2.Closed", true, ev_0, 5, en_0},
  {"vp2.MapClosed", true, ev_1, 3, en_1},
  {"vp2.NoZero", true, ev_2, 4, en_2},
  {"vp2.Far", true, ev_3, 2, en_3},
  {"vp2.Dense", true, ev_4, 4, en_4},
  {"vp3.Color", false, ev_5, 6, en_5},
  {"vp3.Aliased", false, ev_6, 3, en_6},
  {"vpe.Open", false, ev_7, 3, en_7},
  {"vpe.Closed", true, ev_8, 3, en_8},
  {"vpe.MapClosed", true, ev_9, 3, en_9},
};
static const FieldDesc f_0[] = {
  {"id", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"name", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"nums", 3u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"blob", 4u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_0[] = {
  {}};
static const FieldDesc f_1[] = {
  {"f_double", 1u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_float", 2u, Type::FLOAT, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int32", 3u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int64", 4u, Type::INT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint32", 5u, Type::UINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint64", 6u, Type::UINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint32", 7u, Type::SINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint64", 8u, Type::SINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed32", 9u, Type::FIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed64", 10u, Type::FIXED64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed32", 11u, Type::SFIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed64", 12u, Type::SFIXED64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bool", 13u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_string", 14u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bytes", 15u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_closed", 16u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {"f_leaf", 17u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"f_dense", 18u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 4, false, 10ull, std::string("", 0)},
  {"f_nozero", 19u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 2, false, 3ull, std::string("", 0)},
  {"f_far", 20u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 3, false, 18446744071562067968ull, std::string("", 0)},
  {}};
static const FieldDesc x_1[] = {
  {}};
static const FieldDesc f_2[] = {
  {"f_double", 1u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18321183339337242677ull, std::string("", 0)},
  {"f_float", 2u, Type::FLOAT, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 2139095040ull, std::string("", 0)},
  {"f_int32", 3u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18446744071562067968ull, std::string("", 0)},
  {"f_int64", 4u, Type::INT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 9223372036854775808ull, std::string("", 0)},
  {"f_uint32", 5u, Type::UINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 4294967295ull, std::string("", 0)},
  {"f_uint64", 6u, Type::UINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18446744073709551615ull, std::string("", 0)},
  {"f_sint32", 7u, Type::SINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18446744073709551609ull, std::string("", 0)},
  {"f_bool", 13u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 1ull, std::string("", 0)},
  {"f_string", 14u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("\150\145\042\154\134\154\157\012\001", 9)},
  {"f_bytes", 15u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("\376\000\001\172", 4)},
  {"f_closed", 16u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 2ull, std::string("", 0)},
  {"f_dense", 17u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 4, false, 12ull, std::string("", 0)},
  {"f_nan", 18u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 9221120237041090560ull, std::string("", 0)},
  {"f_ninf", 19u, Type::FLOAT, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 4286578688ull, std::string("", 0)},
  {"f_first", 20u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {}};
static const FieldDesc x_2[] = {
  {}};
static const FieldDesc f_3[] = {
  {"a", 1u, Type::INT32, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"b", 2u, Type::STRING, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"c", 3u, Type::ENUM, Kind::ONE, Presence::REQUIRED, -1, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {"d", 4u, Type::MESSAGE, Kind::ONE, Presence::REQUIRED, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"e", 5u, Type::DOUBLE, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f", 6u, Type::BYTES, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"next", 7u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 3, -1, false, 0ull, std::string("", 0)},
  {"g", 8u, Type::ENUM, Kind::ONE, Presence::REQUIRED, -1, false, true, false, -1, 2, false, 3ull, std::string("", 0)},
  {"h", 9u, Type::UINT64, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 12ull, std::string("", 0)},
  {"i", 10u, Type::STRING, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("\144\000\146", 3)},
  {"j", 11u, Type::BYTES, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("\377\000", 2)},
  {}};
static const FieldDesc x_3[] = {
  {}};
static const FieldDesc f_4[] = {
  {"r_double", 1u, Type::DOUBLE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_float", 2u, Type::FLOAT, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int32", 3u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int64", 4u, Type::INT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint32", 5u, Type::UINT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint64", 6u, Type::UINT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint32", 7u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint64", 8u, Type::SINT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed32", 9u, Type::FIXED32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed64", 10u, Type::FIXED64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed32", 11u, Type::SFIXED32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed64", 12u, Type::SFIXED64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bool", 13u, Type::BOOL, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_string", 14u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bytes", 15u, Type::BYTES, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_closed", 16u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, false, true, false, -1, 0, false, 0ull, std::string("", 0)},
  {"r_leaf", 17u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"r_dense", 18u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, false, true, false, -1, 4, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_4[] = {
  {}};
static const FieldDesc f_5[] = {
  {"r_double", 1u, Type::DOUBLE, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_float", 2u, Type::FLOAT, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int32", 3u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int64", 4u, Type::INT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint32", 5u, Type::UINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint64", 6u, Type::UINT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint32", 7u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint64", 8u, Type::SINT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed32", 9u, Type::FIXED32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed64", 10u, Type::FIXED64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed32", 11u, Type::SFIXED32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed64", 12u, Type::SFIXED64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bool", 13u, Type::BOOL, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_closed", 16u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, true, false, -1, 0, false, 0ull, std::string("", 0)},
  {"r_dense", 18u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, true, false, -1, 4, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_5[] = {
  {}};
static const FieldDesc f_6[] = {
  {"pre", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"og", 2u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 7, -1, true, 0ull, std::string("", 0)},
  {"gr", 4u, Type::GROUP, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 9, -1, true, 0ull, std::string("", 0)},
  {"pi", 8u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"pg", 9u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 10, -1, true, 0ull, std::string("", 0)},
  {"pc", 10u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, 0, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {"pd", 11u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, 0, false, true, false, -1, 4, false, 10ull, std::string("", 0)},
  {"ps", 12u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"wide", 5000u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 11, -1, true, 0ull, std::string("", 0)},
  {"tail", 20u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_6[] = {
  {}};
static const FieldDesc f_7[] = {
  {"a", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"s", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"rg", 3u, Type::GROUP, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 8, -1, true, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_7[] = {
  {}};
static const FieldDesc f_8[] = {
  {"x", 1u, Type::FIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"deep", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 6, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_8[] = {
  {}};
static const FieldDesc f_9[] = {
  {"b", 5u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r", 6u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"c", 7u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {}};
static const FieldDesc x_9[] = {
  {}};
static const FieldDesc f_10[] = {
  {"q", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"t", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_10[] = {
  {}};
static const FieldDesc f_11[] = {
  {"w", 1u, Type::INT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_11[] = {
  {}};
static const FieldDesc f_12[] = {
  {"m_i32_closed", 1u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 13, -1, false, 0ull, std::string("", 0)},
  {"m_str_leaf", 2u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 14, -1, false, 0ull, std::string("", 0)},
  {"m_bool_closed", 3u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 15, -1, false, 0ull, std::string("", 0)},
  {"m_str_bytes", 4u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 16, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_12[] = {
  {}};
static const FieldDesc f_13[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_13[] = {
  {}};
static const FieldDesc f_14[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_14[] = {
  {}};
static const FieldDesc f_15[] = {
  {"key", 1u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_15[] = {
  {}};
static const FieldDesc f_16[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_16[] = {
  {}};
static const FieldDesc f_17[] = {
  {"base", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_17[] = {
  {"x_int32", 100u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_string", 101u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_closed", 102u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 1ull, std::string("", 0)},
  {"x_leaf", 103u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"x_rint", 104u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_pint", 105u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_rstr", 106u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_rleaf", 107u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"x_sint64", 108u, Type::SINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18446744073709551574ull, std::string("", 0)},
  {"x_double", 1000u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_bytes", 536870911u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_rclosed", 112u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, false, true, false, -1, 0, false, 0ull, std::string("", 0)},
  {"x_bool", 113u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_fixed32", 114u, Type::FIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"xg", 115u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 19, -1, true, 0ull, std::string("", 0)},
  {"x_pclosed", 116u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, true, false, -1, 0, false, 0ull, std::string("", 0)},
  {"x_rbytes", 117u, Type::BYTES, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_uint64", 118u, Type::UINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_float", 119u, Type::FLOAT, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_dstr", 120u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("\161\000\162", 3)},
  {"x_dbytes", 121u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("\000\172", 2)},
  {"x_dclosed", 122u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 0, false, 2ull, std::string("", 0)},
  {"x_ddouble", 123u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 9221120237041090560ull, std::string("", 0)},
  {"nested_leaf", 110u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 0, -1, false, 0ull, std::string("", 0)},
  {"nested_strs", 111u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc f_18[] = {
  {"ext", 1u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 17, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_18[] = {
  {}};
static const FieldDesc f_19[] = {
  {"g", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_19[] = {
  {}};
static const FieldDesc f_20[] = {
  {"v", 1u, Type::UINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"child", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 20, -1, false, 0ull, std::string("", 0)},
  {"kids", 3u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 20, -1, false, 0ull, std::string("", 0)},
  {"gn", 4u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 21, -1, true, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_20[] = {
  {}};
static const FieldDesc f_21[] = {
  {"in", 1u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 20, -1, false, 0ull, std::string("", 0)},
  {"k", 2u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_21[] = {
  {}};
static const FieldDesc f_22[] = {
  {"f_double", 1u, Type::DOUBLE, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_float", 2u, Type::FLOAT, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int32", 3u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int64", 4u, Type::INT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint32", 5u, Type::UINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint64", 6u, Type::UINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint32", 7u, Type::SINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint64", 8u, Type::SINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed32", 9u, Type::FIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed64", 10u, Type::FIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed32", 11u, Type::SFIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed64", 12u, Type::SFIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bool", 13u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_string", 14u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bytes", 15u, Type::BYTES, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_color", 16u, Type::ENUM, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {"f_leaf", 17u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_22[] = {
  {}};
static const FieldDesc f_23[] = {
  {"id", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"name", 2u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"nums", 3u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"blob", 4u, Type::BYTES, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_23[] = {
  {}};
static const FieldDesc f_24[] = {
  {"f_double", 1u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_float", 2u, Type::FLOAT, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int32", 3u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_int64", 4u, Type::INT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint32", 5u, Type::UINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_uint64", 6u, Type::UINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint32", 7u, Type::SINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sint64", 8u, Type::SINT64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed32", 9u, Type::FIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_fixed64", 10u, Type::FIXED64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed32", 11u, Type::SFIXED32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_sfixed64", 12u, Type::SFIXED64, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bool", 13u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_string", 14u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"f_bytes", 15u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f_color", 2047u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {"f_leaf", 536870911u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_24[] = {
  {}};
static const FieldDesc f_25[] = {
  {"r_double", 1u, Type::DOUBLE, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_float", 2u, Type::FLOAT, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int32", 3u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int64", 4u, Type::INT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint32", 5u, Type::UINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint64", 6u, Type::UINT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint32", 7u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint64", 8u, Type::SINT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed32", 9u, Type::FIXED32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed64", 10u, Type::FIXED64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed32", 11u, Type::SFIXED32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed64", 12u, Type::SFIXED64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bool", 13u, Type::BOOL, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_string", 14u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bytes", 15u, Type::BYTES, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_color", 16u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {"r_leaf", 2048u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_25[] = {
  {}};
static const FieldDesc f_26[] = {
  {"r_double", 1u, Type::DOUBLE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_float", 2u, Type::FLOAT, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int32", 3u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_int64", 4u, Type::INT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint32", 5u, Type::UINT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_uint64", 6u, Type::UINT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint32", 7u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sint64", 8u, Type::SINT64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed32", 9u, Type::FIXED32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_fixed64", 10u, Type::FIXED64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed32", 11u, Type::SFIXED32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_sfixed64", 12u, Type::SFIXED64, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_bool", 13u, Type::BOOL, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"r_color", 300u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_26[] = {
  {}};
static const FieldDesc f_27[] = {
  {"m_i32_i32", 1u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 28, -1, false, 0ull, std::string("", 0)},
  {"m_i64_double", 2u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 29, -1, false, 0ull, std::string("", 0)},
  {"m_u32_bytes", 3u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 30, -1, false, 0ull, std::string("", 0)},
  {"m_u64_float", 4u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 31, -1, false, 0ull, std::string("", 0)},
  {"m_s32_s64", 5u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 32, -1, false, 0ull, std::string("", 0)},
  {"m_s64_u32", 6u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 33, -1, false, 0ull, std::string("", 0)},
  {"m_f32_f64", 7u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 34, -1, false, 0ull, std::string("", 0)},
  {"m_f64_sf32", 8u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 35, -1, false, 0ull, std::string("", 0)},
  {"m_sf32_str", 9u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 36, -1, false, 0ull, std::string("", 0)},
  {"m_sf64_bool", 10u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 37, -1, false, 0ull, std::string("", 0)},
  {"m_bool_color", 11u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 38, -1, false, 0ull, std::string("", 0)},
  {"m_str_leaf", 12u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 39, -1, false, 0ull, std::string("", 0)},
  {"m_str_str", 13u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 40, -1, false, 0ull, std::string("", 0)},
  {"m_i32_maps", 14u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 41, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_27[] = {
  {}};
static const FieldDesc f_28[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_28[] = {
  {}};
static const FieldDesc f_29[] = {
  {"key", 1u, Type::INT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::DOUBLE, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_29[] = {
  {}};
static const FieldDesc f_30[] = {
  {"key", 1u, Type::UINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::BYTES, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_30[] = {
  {}};
static const FieldDesc f_31[] = {
  {"key", 1u, Type::UINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::FLOAT, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_31[] = {
  {}};
static const FieldDesc f_32[] = {
  {"key", 1u, Type::SINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::SINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_32[] = {
  {}};
static const FieldDesc f_33[] = {
  {"key", 1u, Type::SINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::UINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_33[] = {
  {}};
static const FieldDesc f_34[] = {
  {"key", 1u, Type::FIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::FIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_34[] = {
  {}};
static const FieldDesc f_35[] = {
  {"key", 1u, Type::FIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::SFIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_35[] = {
  {}};
static const FieldDesc f_36[] = {
  {"key", 1u, Type::SFIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_36[] = {
  {}};
static const FieldDesc f_37[] = {
  {"key", 1u, Type::SFIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_37[] = {
  {}};
static const FieldDesc f_38[] = {
  {"key", 1u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::ENUM, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_38[] = {
  {}};
static const FieldDesc f_39[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_39[] = {
  {}};
static const FieldDesc f_40[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_40[] = {
  {}};
static const FieldDesc f_41[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 27, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_41[] = {
  {}};
static const FieldDesc f_42[] = {
  {"before", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_double", 2u, Type::DOUBLE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_int32", 3u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_sint64", 4u, Type::SINT64, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_fixed32", 5u, Type::FIXED32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_bool", 6u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_string", 7u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"o_bytes", 8u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"o_color", 9u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {"o_leaf", 10u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"o_self", 11u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 42, -1, false, 0ull, std::string("", 0)},
  {"after", 12u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"p_a", 13u, Type::UINT32, Kind::ONE, Presence::EXPLICIT, 1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"p_b", 14u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"p_c", 15u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"p_d", 16u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_42[] = {
  {}};
static const FieldDesc f_43[] = {
  {"v", 1u, Type::UINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"child", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 43, -1, false, 0ull, std::string("", 0)},
  {"kids", 3u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 43, -1, false, 0ull, std::string("", 0)},
  {"kmap", 4u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 44, -1, false, 0ull, std::string("", 0)},
  {"onode", 5u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 43, -1, false, 0ull, std::string("", 0)},
  {"otext", 6u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"b", 7u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 45, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_43[] = {
  {}};
static const FieldDesc f_44[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 43, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_44[] = {
  {}};
static const FieldDesc f_45[] = {
  {"back", 1u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 43, -1, false, 0ull, std::string("", 0)},
  {"xs", 2u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_45[] = {
  {}};
static const FieldDesc f_46[] = {
  {"s", 100u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"a", 3u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"p", 20000u, Type::UINT64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"b", 1u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"m", 16u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"mp", 15u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 47, -1, false, 0ull, std::string("", 0)},
  {"wa", 70000u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"wb", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"last", 18999u, Type::FIXED64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"pastres", 20001u, Type::FLOAT, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_46[] = {
  {}};
static const FieldDesc f_47[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_47[] = {
  {}};
static const FieldDesc f_48[] = {
  {}};
static const FieldDesc x_48[] = {
  {}};
static const FieldDesc f_49[] = {
  {"e", 1u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 48, -1, false, 0ull, std::string("", 0)},
  {"es", 2u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 48, -1, false, 0ull, std::string("", 0)},
  {"em", 3u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 50, -1, false, 0ull, std::string("", 0)},
  {"oe", 4u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 48, -1, false, 0ull, std::string("", 0)},
  {"xe", 5u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 48, -1, false, 0ull, std::string("", 0)},
  {"xi", 6u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_49[] = {
  {}};
static const FieldDesc f_50[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 48, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_50[] = {
  {}};
static const FieldDesc f_51[] = {
  {"a", 33554431u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"b", 33554432u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"c", 268435455u, Type::SINT64, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"d", 268435456u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"e", 100000000u, Type::UINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f", 536870911u, Type::FIXED32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g", 15u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h", 16u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i", 2047u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"j", 2048u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"k", 262143u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 52, -1, false, 0ull, std::string("", 0)},
  {"l", 262144u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"oa", 536870910u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"ob", 4194304u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"oc", 4194303u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_51[] = {
  {}};
static const FieldDesc f_52[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_52[] = {
  {}};
static const FieldDesc f_53[] = {
  {"f1", 1u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f2", 65u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f3", 129u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f4", 257u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f5", 513u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f6", 1025u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f7", 4097u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"f8", 65537u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g1", 2u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g2", 66u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g3", 130u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g4", 258u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g5", 514u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g6", 1026u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g7", 4098u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"g8", 65538u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h1", 3u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h2", 67u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"h3", 131u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"h4", 259u, Type::BOOL, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h5", 515u, Type::ENUM, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, 5, false, 0ull, std::string("", 0)},
  {"h6", 1027u, Type::BYTES, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h7", 4099u, Type::DOUBLE, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"h8", 65539u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 54, -1, false, 0ull, std::string("", 0)},
  {"i1", 4u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i2", 5u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i3", 6u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i4", 7u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i5", 8u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i6", 9u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i7", 10u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i8", 64u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i9", 128u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i10", 256u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i11", 32u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i12", 31u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i13", 33u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"i14", 63u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"q1", 127u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"q2", 512u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"q3", 1024u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"q4", 2049u, Type::MESSAGE, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 23, -1, false, 0ull, std::string("", 0)},
  {"q5", 8193u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"q6", 16385u, Type::FIXED64, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_53[] = {
  {}};
static const FieldDesc f_54[] = {
  {"key", 1u, Type::UINT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_54[] = {
  {}};
static const FieldDesc f_55[] = {
  {"id", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"name", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"nums", 3u, Type::SINT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"blob", 4u, Type::BYTES, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_55[] = {
  {}};
static const FieldDesc f_56[] = {
  {"exp", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"imp", 2u, Type::INT32, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"req", 3u, Type::INT32, Kind::ONE, Presence::REQUIRED, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"delim", 4u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 55, -1, true, 0ull, std::string("", 0)},
  {"lp", 5u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 55, -1, false, 0ull, std::string("", 0)},
  {"rdelim", 6u, Type::GROUP, Kind::REP, Presence::IMPLICIT, -1, false, false, false, 55, -1, true, 0ull, std::string("", 0)},
  {"closed", 7u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 8, false, 2ull, std::string("", 0)},
  {"open", 8u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, 7, false, 0ull, std::string("", 0)},
  {"iopen", 9u, Type::ENUM, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, 7, false, 0ull, std::string("", 0)},
  {"expanded", 10u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"packed", 11u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"rclosed", 12u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, true, false, -1, 8, false, 0ull, std::string("", 0)},
  {"ropen", 13u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, 7, false, 0ull, std::string("", 0)},
  {"xclosed", 14u, Type::ENUM, Kind::REP, Presence::IMPLICIT, -1, false, true, false, -1, 8, false, 0ull, std::string("", 0)},
  {"sv", 15u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"sn", 16u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"isv", 17u, Type::STRING, Kind::ONE, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"rsv", 18u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"rsn", 19u, Type::STRING, Kind::REP, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"mss", 20u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 57, -1, false, 0ull, std::string("", 0)},
  {"msc", 21u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 58, -1, false, 0ull, std::string("", 0)},
  {"mio", 22u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 59, -1, false, 0ull, std::string("", 0)},
  {"od", 23u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, 55, -1, true, 0ull, std::string("", 0)},
  {"oc", 24u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, 0, false, true, false, -1, 8, false, 2ull, std::string("", 0)},
  {"os", 25u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"oo", 26u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, 7, false, 0ull, std::string("", 0)},
  {"osn", 27u, Type::STRING, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"oi", 28u, Type::INT32, Kind::ONE, Presence::EXPLICIT, 0, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"idbl", 29u, Type::DOUBLE, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"iflt", 30u, Type::FLOAT, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"ibytes", 31u, Type::BYTES, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"ibool", 32u, Type::BOOL, Kind::ONE, Presence::IMPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"dsint", 33u, Type::SINT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 18446744073709551607ull, std::string("", 0)},
  {"dstr", 34u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("\144\303\251", 3)},
  {"dclosed", 35u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 8, false, 9ull, std::string("", 0)},
  {"self", 36u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 56, -1, false, 0ull, std::string("", 0)},
  {"dself", 37u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 56, -1, true, 0ull, std::string("", 0)},
  {"msl", 38u, Type::MESSAGE, Kind::MAP, Presence::IMPLICIT, -1, false, false, false, 60, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_56[] = {
  {"x_int", 100u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_packed", 101u, Type::INT32, Kind::REP, Presence::IMPLICIT, -1, true, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"x_delim", 102u, Type::GROUP, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 55, -1, true, 0ull, std::string("", 0)},
  {"x_closed", 103u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 8, false, 2ull, std::string("", 0)},
  {}};
static const FieldDesc f_57[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_57[] = {
  {}};
static const FieldDesc f_58[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, true, false, -1, 9, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_58[] = {
  {}};
static const FieldDesc f_59[] = {
  {"key", 1u, Type::INT32, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::ENUM, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, -1, 7, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_59[] = {
  {}};
static const FieldDesc f_60[] = {
  {"key", 1u, Type::STRING, Kind::ONE, Presence::EXPLICIT, -1, false, false, true, -1, -1, false, 0ull, std::string("", 0)},
  {"value", 2u, Type::MESSAGE, Kind::ONE, Presence::EXPLICIT, -1, false, false, false, 55, -1, false, 0ull, std::string("", 0)},
  {}};
static const FieldDesc x_60[] = {
  {}};
inline const MsgDesc g_msgs[] = {
  {0, "vp2.Leaf", f_0, 4, 0, false, x_0, 0, {}},
  {1, "vp2.Optionals", f_1, 20, 0, false, x_1, 0, {}},
  {2, "vp2.Defaults", f_2, 15, 0, false, x_2, 0, {}},
  {3, "vp2.Required", f_3, 11, 0, false, x_3, 0, {}},
  {4, "vp2.Repeateds", f_4, 18, 0, false, x_4, 0, {}},
  {5, "vp2.Packed", f_5, 15, 0, false, x_5, 0, {}},
  {6, "vp2.Groups", f_6, 10, 1, false, x_6, 0, {}},
  {7, "vp2.Groups.Og", f_7, 3, 0, false, x_7, 0, {}},
  {8, "vp2.Groups.Og.Rg", f_8, 2, 0, false, x_8, 0, {}},
  {9, "vp2.Groups.Gr", f_9, 3, 0, false, x_9, 0, {}},
  {10, "vp2.Groups.Pg", f_10, 2, 0, false, x_10, 0, {}},
  {11, "vp2.Groups.Wide", f_11, 1, 0, false, x_11, 0, {}},
  {12, "vp2.Maps", f_12, 4, 0, false, x_12, 0, {}},
  {13, "vp2.Maps.MI32ClosedEntry", f_13, 2, 0, true, x_13, 0, {}},
  {14, "vp2.Maps.MStrLeafEntry", f_14, 2, 0, true, x_14, 0, {}},
  {15, "vp2.Maps.MBoolClosedEntry", f_15, 2, 0, true, x_15, 0, {}},
  {16, "vp2.Maps.MStrBytesEntry", f_16, 2, 0, true, x_16, 0, {}},
  {17, "vp2.Ext", f_17, 1, 0, false, x_17, 25, {{100,200},{1000,536870912}}},
  {18, "vp2.ExtHolder", f_18, 1, 0, false, x_18, 0, {}},
  {19, "vp2.Xg", f_19, 1, 0, false, x_19, 0, {}},
  {20, "vp2.Node", f_20, 4, 0, false, x_20, 0, {}},
  {21, "vp2.Node.Gn", f_21, 2, 0, false, x_21, 0, {}},
  {22, "vp3.Scalars", f_22, 17, 0, false, x_22, 0, {}},
  {23, "vp3.Leaf", f_23, 4, 0, false, x_23, 0, {}},
  {24, "vp3.Optionals", f_24, 17, 0, false, x_24, 0, {}},
  {25, "vp3.Repeateds", f_25, 17, 0, false, x_25, 0, {}},
  {26, "vp3.Unpacked", f_26, 14, 0, false, x_26, 0, {}},
  {27, "vp3.Maps", f_27, 14, 0, false, x_27, 0, {}},
  {28, "vp3.Maps.MI32I32Entry", f_28, 2, 0, true, x_28, 0, {}},
  {29, "vp3.Maps.MI64DoubleEntry", f_29, 2, 0, true, x_29, 0, {}},
  {30, "vp3.Maps.MU32BytesEntry", f_30, 2, 0, true, x_30, 0, {}},
  {31, "vp3.Maps.MU64FloatEntry", f_31, 2, 0, true, x_31, 0, {}},
  {32, "vp3.Maps.MS32S64Entry", f_32, 2, 0, true, x_32, 0, {}},
  {33, "vp3.Maps.MS64U32Entry", f_33, 2, 0, true, x_33, 0, {}},
  {34, "vp3.Maps.MF32F64Entry", f_34, 2, 0, true, x_34, 0, {}},
  {35, "vp3.Maps.MF64Sf32Entry", f_35, 2, 0, true, x_35, 0, {}},
  {36, "vp3.Maps.MSf32StrEntry", f_36, 2, 0, true, x_36, 0, {}},
  {37, "vp3.Maps.MSf64BoolEntry", f_37, 2, 0, true, x_37, 0, {}},
  {38, "vp3.Maps.MBoolColorEntry", f_38, 2, 0, true, x_38, 0, {}},
  {39, "vp3.Maps.MStrLeafEntry", f_39, 2, 0, true, x_39, 0, {}},
  {40, "vp3.Maps.MStrStrEntry", f_40, 2, 0, true, x_40, 0, {}},
  {41, "vp3.Maps.MI32MapsEntry", f_41, 2, 0, true, x_41, 0, {}},
  {42, "vp3.Oneofs", f_42, 16, 2, false, x_42, 0, {}},
  {43, "vp3.Node", f_43, 7, 1, false, x_43, 0, {}},
  {44, "vp3.Node.KmapEntry", f_44, 2, 0, true, x_44, 0, {}},
  {45, "vp3.NodeB", f_45, 2, 0, false, x_45, 0, {}},
  {46, "vp3.Sparse", f_46, 10, 1, false, x_46, 0, {}},
  {47, "vp3.Sparse.MpEntry", f_47, 2, 0, true, x_47, 0, {}},
  {48, "vp3.Empty", f_48, 0, 0, false, x_48, 0, {}},
  {49, "vp3.WithEmpty", f_49, 6, 1, false, x_49, 0, {}},
  {50, "vp3.WithEmpty.EmEntry", f_50, 2, 0, true, x_50, 0, {}},
  {51, "vp3.BigNums", f_51, 15, 1, false, x_51, 0, {}},
  {52, "vp3.BigNums.KEntry", f_52, 2, 0, true, x_52, 0, {}},
  {53, "vp3.Many", f_53, 44, 1, false, x_53, 0, {}},
  {54, "vp3.Many.H8Entry", f_54, 2, 0, true, x_54, 0, {}},
  {55, "vpe.Leaf", f_55, 4, 0, false, x_55, 0, {}},
  {56, "vpe.Ed", f_56, 38, 1, false, x_56, 4, {{100,201}}},
  {57, "vpe.Ed.MssEntry", f_57, 2, 0, true, x_57, 0, {}},
  {58, "vpe.Ed.MscEntry", f_58, 2, 0, true, x_58, 0, {}},
  {59, "vpe.Ed.MioEntry", f_59, 2, 0, true, x_59, 0, {}},
  {60, "vpe.Ed.MslEntry", f_60, 2, 0, true, x_60, 0, {}},
};
const int g_nmsgs = 61;
