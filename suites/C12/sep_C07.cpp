// C07 scenarios with declarations separate from their implementation: the scenarios see declarations only
#include "../C07/harness.cpp"
#include "rust_interface/Obj_impl.hpp"
#include "rust_interface/Item_impl.hpp"
#include "rust_interface/Plain_impl.hpp"
#include "rust_interface/Holder_impl.hpp"
#include "rust_interface/F_impl.hpp"
#include "rust_interface/Construct_impl.hpp"
#include "rust_interface/Reunion_impl.hpp"
