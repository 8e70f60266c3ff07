// C10 scenarios on the Boost flavour of the generated C++ API
#include "../C12/boost_pre.h"
#include "rust_interface/Kind.hpp"
#include "rust_interface/Obj.hpp"
#include "rust_interface/Slots.hpp"
#include "rust_interface/Scal.hpp"
#include "rust_interface/Rich.hpp"
#include "rust_interface/Nest.hpp"
#include "rust_interface/SentCb.hpp"
#include "rust_interface/Hub.hpp"
#include "../C12/boost_as_std.h"
#include "../C10/harness.cpp"
