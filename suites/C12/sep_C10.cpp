// C10 scenarios with declarations separate from their implementation: the scenarios see declarations only
#include "../C10/harness.cpp"
#include "rust_interface/Obj_impl.hpp"
#include "rust_interface/Hub_impl.hpp"
#include "rust_interface/ManyUser_impl.hpp"
