#include "tooling/Logger.hpp"
using namespace webfront;
using Sink = std::function<void(std::string_view)>;
extern "C" void l_out(const char* p, size_t n) { log::out(std::string_view(p, n)); }
extern "C" size_t l_add1(Sink* f) { return log::addSinks(*f); }
extern "C" size_t l_add2(Sink* f, Sink* g) { return log::addSinks(*f, *g); }
extern "C" void l_remove1(size_t i) { log::removeSinks(i); }
extern "C" void l_remove2(size_t i, size_t j) { log::removeSinks(i, j); }
extern "C" void l_set(uint8_t t, bool b) { log::set(t, b); }
extern "C" bool l_is(uint8_t t) { return log::is(t); }
extern "C" void l_level(uint8_t l) { log::setLogLevel(l); }
extern "C" void l_error(const char* p, size_t n, int x) { log::error(std::string_view(p, n), x); }
extern "C" void l_warn(const char* p, size_t n, int x) { log::warn(std::string_view(p, n), x); }
extern "C" void l_info(const char* p, size_t n, int x) { log::info(std::string_view(p, n), x); }
extern "C" void l_debug(const char* p, size_t n, int x) { log::debug(std::string_view(p, n), std::move(x)); }
extern "C" void l_error0(const char* p, size_t n) { log::error(std::string_view(p, n)); }
extern "C" void l_warn0(const char* p, size_t n) { log::warn(std::string_view(p, n)); }
extern "C" void l_info0(const char* p, size_t n) { log::info(std::string_view(p, n)); }
extern "C" void l_debug0(const char* p, size_t n) { log::debug(std::string_view(p, n)); }
extern "C" void l_hex(const char* p, size_t n, const std::string* s) { log::infoHex(std::string_view(p, n), *s); }
