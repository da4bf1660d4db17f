#include <algorithm>
#include <span>
#include <string>
#include <string_view>
#include "net.hpp"
using M = PNet::MutableBuffer;
using C = PNet::ConstBuffer;
extern "C" void m_adv(M* b, size_t n) { *b += n; }
extern "C" void c_adv(C* b, size_t n) { *b += n; }
extern "C" void m_ptr(M* o, void* d, size_t n) { *o = PNet::Buffer(d, n); }
extern "C" void c_ptr(C* o, const void* d, size_t n) { *o = PNet::Buffer(d, n); }
extern "C" void m_view(M* o, M* b) { *o = PNet::Buffer(*b); }
extern "C" void c_view(C* o, C* b) { *o = PNet::Buffer(*b); }
extern "C" void m_viewn(M* o, M* b, size_t s) { *o = PNet::Buffer(*b, s); }
extern "C" void c_viewn(C* o, C* b, size_t s) { *o = PNet::Buffer(*b, s); }
extern "C" void c_m(C* o, M* b) { *o = C(*b); }
#define ALL(N, V, ...) \
    extern "C" void N(V* o, __VA_ARGS__* d) { *o = PNet::Buffer(*d); } \
    extern "C" void N##_n(V* o, __VA_ARGS__* d, size_t s) { *o = PNet::Buffer(*d, s); }
using A8 = char[7];
using A32 = uint32_t[5];
ALL(a8, M, A8) ALL(a8c, C, const A8) ALL(a32, M, A32) ALL(a32c, C, const A32)
using R8 = std::array<char, 9>;
using R64 = std::array<uint64_t, 3>;
using RC = std::array<const uint16_t, 6>;
ALL(r8, M, R8) ALL(r64, M, R64) ALL(rc, C, RC)
ALL(v8, M, std::vector<std::byte>) ALL(v8c, C, const std::vector<std::byte>) ALL(v32, M, std::vector<uint32_t>) ALL(v32c, C, const std::vector<uint32_t>)
ALL(s8, M, std::string) ALL(s8c, C, const std::string)
extern "C" void sv(C* o, std::string_view d) { *o = PNet::Buffer(d); }
extern "C" void sv_n(C* o, std::string_view d, size_t s) { *o = PNet::Buffer(d, s); }
