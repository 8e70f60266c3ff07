// C03 scenarios with declarations separate from their implementation: the scenarios see declarations only
#include "../C03/harness.cpp"
#undef T_o_u8
#undef T_o_i8
#undef T_o_i16
#undef T_o_u32
#undef T_o_i64
#undef T_o_u64
#undef T_o_usize
#include "rust_interface/Obj_impl.hpp"
#include "rust_interface/Fail_impl.hpp"
#include "rust_interface/Keeper_impl.hpp"
#include "rust_interface/T_impl.hpp"
