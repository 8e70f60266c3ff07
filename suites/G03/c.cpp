#include "vh.h"
#include "rust_interface/Doc.hpp"
#include "rust_interface/Stat.hpp"
#include "rust_interface/Sink.hpp"
#include "rust_interface/Level.hpp"
using namespace rust;
HARNESS(api) { int32_t v = nd_u32(), x = nd_u32(); Doc d(v); CHK(d.get() == v); d.add(x); CHK(d.get() == (int32_t)((uint32_t)v + (uint32_t)x)); CHK(d.neg() == (int32_t)(0u - ((uint32_t)v + (uint32_t)x)));
    CHK(Doc::twice(x) == (int32_t)(2u * x)); CHK(Doc::thrice(x) == (int32_t)(3u * x)); CHK(Stat::a(x) == (int32_t)(2u * x)); CHK(Stat::b(x) == (int32_t)(3u * x)); }
HARNESS(level) { static const Level l[] = {LOW, MID, HIGH}; uint32_t k = nd_pick(3); CHK(Doc::flip(l[k]) == l[2 - k]); }
struct Sk : Sink { int32_t first(int32_t x) const noexcept override { return x; } int32_t second(int32_t x) const noexcept override { return (int32_t)((uint32_t)x * 5u); } };
HARNESS(sink) { int32_t x = nd_u32(); CHK(Doc::ask(std::unique_ptr<Sink>(new Sk), x) == (int32_t)((uint32_t)x - (uint32_t)x * 5u)); }
