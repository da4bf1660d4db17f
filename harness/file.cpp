#include <span>
#include <string_view>
#include "details/C++23Support.hpp"
#include "system/FileSystem.hpp"
using namespace webfront::fs;
extern "C" size_t f_read(File* f, char* p, size_t n) { return f->read(std::span<char>(p, n)); }
extern "C" void f_ctor(File* f, const uint64_t* p, size_t words, size_t size, std::string_view enc) { new (f) File(std::span<const uint64_t>(p, words), size, enc); }
extern "C" int f_eof(File* f) { return f->eof(); }
extern "C" int f_isenc(File* f) { return f->isEncoded(); }
extern "C" void f_enc(File* f, std::string_view* o) { *o = f->getEncoding(); }
