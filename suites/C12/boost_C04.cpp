// C04 scenarios on the Boost flavour of the generated C++ API
#include "../C12/boost_pre.h"
#include "rust_interface/Text.hpp"
#include "rust_interface/S.hpp"
#include "../C12/boost_as_std.h"
#include "../C04/harness.cpp"
