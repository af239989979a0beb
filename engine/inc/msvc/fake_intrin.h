// Stand-ins for the MSVC x64 intrinsics, by their documented meaning, so that clang can lower the _MSC_VER branches.
#pragma once
#include <cstdint>
#define __declspec(x)
static inline std::uint64_t __emulu(unsigned x, unsigned y) { return (std::uint64_t)x * y; }
static inline std::uint64_t __umulh(std::uint64_t x, std::uint64_t y) {
	return (std::uint64_t)(((unsigned __int128)x * y) >> 64);
}
static inline std::uint64_t _umul128(std::uint64_t x, std::uint64_t y, std::uint64_t* hi) {
	unsigned __int128 p = (unsigned __int128)x * y;
	*hi = (std::uint64_t)(p >> 64);
	return (std::uint64_t)p;
}
static inline unsigned char _addcarry_u64(unsigned char c, std::uint64_t a, std::uint64_t b, std::uint64_t* out) {
	unsigned __int128 s = (unsigned __int128)a + b + c;
	*out = (std::uint64_t)s;
	return (unsigned char)(s >> 64);
}
static inline std::uint64_t __shiftleft128(std::uint64_t lo, std::uint64_t hi, unsigned char n) {
	n &= 63;
	return (std::uint64_t)(((((unsigned __int128)hi << 64) | lo) << n) >> 64);
}
static inline std::uint64_t __shiftright128(std::uint64_t lo, std::uint64_t hi, unsigned char n) {
	n &= 63;
	return (std::uint64_t)((((unsigned __int128)hi << 64) | lo) >> n);
}
static inline unsigned char _BitScanForward(unsigned long* i, unsigned long x) {
	if (!x) return 0;
	*i = (unsigned long)__builtin_ctz((unsigned)x);
	return 1;
}
static inline unsigned char _BitScanForward64(unsigned long* i, std::uint64_t x) {
	if (!x) return 0;
	*i = (unsigned long)__builtin_ctzll(x);
	return 1;
}
