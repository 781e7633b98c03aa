// Harness interface. Under symx the extern "C" functions are interpreted by the
// engine; natively they are defined in native.cpp and replay recorded inputs.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void sym_bytes(void* p, std::size_t n, const char* name);
std::uint64_t sym_value(unsigned width, const char* name);
std::uint64_t sym_digit(std::uint64_t lo, std::uint64_t hi, const char* name); // inclusive, hi <= 255; kept as a digit of decimal numbers
void sym_assume(bool c);
void sym_check(bool c, const char* msg);
void sym_known(bool c, const char* msg);   // like sym_check, but the path goes on after a failure (for recorded findings)
void sym_trace(std::uint64_t v);
void sym_cover(const char* name);
std::uint64_t sym_config(const char* name, std::uint64_t dflt);
std::uint64_t sym_concretize(std::uint64_t v);
bool sym_memeq(const void* a, const void* b, std::size_t n);
void sym_main();
}
inline std::uint64_t sym_range(std::uint64_t lo, std::uint64_t hi, const char* name) // inclusive
{ unsigned w = 8; std::uint64_t d = hi - lo; while (w < 64 && (d >> w)) w *= 2; std::uint64_t v = sym_value(w, name); sym_assume(v <= d); return lo + v; }
inline bool sym_bool(const char* name) { return (sym_value(8, name) & 1) != 0; }
#define CFG(name, dflt) static_cast<int>(sym_config(name, dflt))
