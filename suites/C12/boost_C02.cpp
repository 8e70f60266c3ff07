// C02 scenarios on the Boost flavour of the generated C++ API
#include "../C12/boost_pre.h"
#include "rust_interface/Holder.hpp"
#include "rust_interface/Color.hpp"
#include "rust_interface/Other.hpp"
#include "rust_interface/Single.hpp"
#include "rust_interface/Swap.hpp"
#include "rust_interface/Paint.hpp"
#include "../C12/boost_as_std.h"
#include "../C02/harness.cpp"
