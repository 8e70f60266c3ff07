// C09 scenarios with declarations separate from their implementation: the scenarios see declarations only
#include "../C09/harness.cpp"
#include "rust_interface/Acc_impl.hpp"
#include "rust_interface/SRr_impl.hpp"
#include "rust_interface/SAm_impl.hpp"
#include "rust_interface/SR_impl.hpp"
#include "rust_interface/SA_impl.hpp"
#include "rust_interface/Shape_impl.hpp"
#include "rust_interface/World_impl.hpp"
#include "rust_interface/Camel_impl.hpp"
#include "rust_interface/ShFns_impl.hpp"
#include "rust_interface/Fact_impl.hpp"
#include "rust_interface/FactB_impl.hpp"
#include "rust_interface/OldStyle_impl.hpp"
#include "rust_interface/FactFns_impl.hpp"
