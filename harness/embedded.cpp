#include "system/IndexFS.hpp"
#include "system/ReactFS.hpp"
#include "system/BabelFS.hpp"
#include "system/JasmineFS.hpp"
#include <new>
using namespace webfront::fs;
using Out = std::optional<File>;
extern "C" void e_index(const std::filesystem::path* p, Out* out) { new (out) Out(IndexFS(*p).open(*p)); }
extern "C" void e_react(const std::filesystem::path* p, Out* out) { new (out) Out(ReactFS(*p).open(*p)); }
extern "C" void e_babel(const std::filesystem::path* p, Out* out) { new (out) Out(BabelFS(*p).open(*p)); }
extern "C" void e_jasmine(const std::filesystem::path* p, Out* out) { new (out) Out(JasmineFS(*p).open(*p)); }
// providers whose behaviour is given by the proofs
#define PROVIDER(N) struct N { explicit N(std::filesystem::path); Out open(std::filesystem::path p); char unused; };
PROVIDER(FSA) PROVIDER(FSB) PROVIDER(FSC) PROVIDER(FSD)
using M1 = Multi<FSA>;
using M2 = Multi<FSA, FSB>;
using M3 = Multi<FSA, FSB, FSC>;
using M4 = Multi<FSD, FSB, FSC, FSA>;
extern "C" void m_open1(M1* m, const std::filesystem::path* p, Out* out) { new (out) Out(m->open(*p)); }
extern "C" void m_open2(M2* m, const std::filesystem::path* p, Out* out) { new (out) Out(m->open(*p)); }
extern "C" void m_open3(M3* m, const std::filesystem::path* p, Out* out) { new (out) Out(m->open(*p)); }
extern "C" void m_open4(M4* m, const std::filesystem::path* p, Out* out) { new (out) Out(m->open(*p)); }
extern "C" void m_ctor3(M3* m, const std::filesystem::path* p) { new (m) M3(*p); }
extern "C" void m_ctor4(M4* m, const std::filesystem::path* p) { new (m) M4(*p); }
