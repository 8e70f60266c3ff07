// C08 scenarios with declarations separate from their implementation: the scenarios see declarations only
#include "../C08/harness.cpp"
#include "rust_interface/Val_impl.hpp"
#include "rust_interface/PVal_impl.hpp"
#include "rust_interface/RR_impl.hpp"
#include "rust_interface/AM_impl.hpp"
#include "rust_interface/A1_impl.hpp"
#include "rust_interface/R1_impl.hpp"
#include "rust_interface/PA_impl.hpp"
#include "rust_interface/Hold_impl.hpp"
#include "rust_interface/G_impl.hpp"
