#include "tooling/HexDump.hpp"
using namespace webfront::utils;
using Bytes = std::span<const uint8_t>;
using Words = std::span<const uint32_t>;
using Chars = std::span<const char>;
extern "C" void d_bytes(std::ostream& os, const uint8_t* p, size_t n, size_t start) { Bytes b(p, n); os << HexDump<Bytes>(b, start); }
using Vector = std::vector<std::byte>;
extern "C" void d_vector(std::ostream& os, const Vector& v, size_t start) { os << HexDump<Vector>(v, start); }
extern "C" void d_words(std::ostream& os, const uint32_t* p, size_t n, size_t start) { Words b(p, n); os << HexDump<Words>(b, start); }
extern "C" void d_text(const char* p, size_t n, size_t start, std::string* out) { Chars b(p, n); new (out) std::string(hexDump(b, start)); }
extern "C" void d_both(const uint8_t* p, size_t n, const uint8_t* q, size_t k, std::string* out) { new (out) std::string(hexDump(Bytes(p, n), Bytes(q, k))); }
extern "C" void d_bothwords(const uint32_t* p, size_t n, const uint32_t* q, size_t k, std::string* out) { new (out) std::string(hexDump(Words(p, n), Words(q, k))); }
