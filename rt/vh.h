// Harness interface: the same harness is executed symbolically (IR) and natively (replay).
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t nd_u8();
uint16_t nd_u16();
uint32_t nd_u32();
uint64_t nd_u64();
bool nd_bool();
uint32_t nd_pick(uint32_t n);   // one path per value 0..n-1
uint32_t nd_f32();              // raw bits
uint64_t nd_f64();
void v_assume(int c);
void v_chk(int c, const char *label);
void v_obs(uint64_t x);
void v_expect_abort();          // from here on the call must abort/panic
void v_allow_leak();
uint64_t v_live();              // live heap blocks
}
#define CHK(...) v_chk((__VA_ARGS__) ? 1 : 0, #__VA_ARGS__)
#define OBS(x) v_obs((uint64_t)(x))
#ifdef VP_NATIVE
struct VpReg { VpReg(const char *n, void (*f)()); };
#define HARNESS(name) extern "C" void h_##name(); static VpReg vpreg_##name("h_" #name, h_##name); extern "C" void h_##name()
#else
#define HARNESS(name) extern "C" __attribute__((used)) void h_##name()
#endif
static inline float vp_f32(uint32_t x) { float f; __builtin_memcpy(&f, &x, 4); return f; }
static inline uint32_t vp_b32(float f) { uint32_t x; __builtin_memcpy(&x, &f, 4); return x; }
static inline double vp_f64(uint64_t x) { double f; __builtin_memcpy(&f, &x, 8); return f; }
static inline uint64_t vp_b64(double f) { uint64_t x; __builtin_memcpy(&x, &f, 8); return x; }
