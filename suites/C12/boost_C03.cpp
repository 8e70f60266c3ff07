// C03 scenarios on the Boost flavour of the generated C++ API
#include "../C12/boost_pre.h"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Fail.hpp"
#include "rust_interface/Why.hpp"
#include "rust_interface/Keeper.hpp"
#include "rust_interface/T.hpp"
#include "../C12/boost_as_std.h"
#include "../C03/harness.cpp"
