#include <string>
#include "utils/TypeErasedFunction.hpp"
using namespace webfront::utils;
using F = TypeErasedFunction;
// the wrapped functions: unknown to the verifier
extern "C" {
int t_sum(int, long);
void t_void();
double t_real(double);
void t_text(std::string, int);
long t_captured(long, int);
}
// matching types
extern "C" int e_call(int a, long b) { F f(&t_sum); return f.call<int>(int(a), long(b)); }
extern "C" void e_invoke(int a, long b) { F f(&t_sum); f(int(a), long(b)); }
extern "C" void e_twice(int a, long b, int c, long d) { F f(&t_sum); f(int(a), long(b)); f.call<int>(int(c), long(d)); }
extern "C" void e_none() { F f(&t_void); f(); }
extern "C" void e_callnone() { F f(&t_void); f.call<void>(); }
extern "C" double e_real(double a) { F f(&t_real); return f.call<double>(double(a)); }
extern "C" long e_captured(long a, int b) { F f([a](int x) { return t_captured(a, x); }); return f.call<long>(int(b)); }
extern "C" void e_captured_invoke(long a, int b) { F f([a](int x) { return t_captured(a, x); }); f(int(b)); }
extern "C" void e_moved(int a, long b) { F f(&t_sum); F g(std::move(f)); g(int(a), long(b)); }
extern "C" void e_text(std::string& s, int a) { F f(&t_text); f(std::move(s), int(a)); }
// bound arguments take the place of those of the call
extern "C" void e_bound(int a, long b, int c, long d) { F f(&t_sum, int(a), long(b)); f(int(c), long(d)); }
extern "C" int e_callbound(int a, long b, int c, long d) { F f(&t_sum, int(a), long(b)); return f.call<int>(int(c), long(d)); }
extern "C" void e_boundtext(std::string& s, int a, std::string& u, int b) { F f(&t_text, std::move(s), int(a)); f(std::move(u), int(b)); }
extern "C" void e_callboundtext(std::string& s, int a, std::string& u, int b) { F f(&t_text, std::move(s), int(a)); f.call<void>(std::move(u), int(b)); }
// other types
extern "C" void x_fewer(int a) { F f(&t_sum); f(int(a)); }
extern "C" void x_more(int a, long b) { F f(&t_sum); f(int(a), long(b), int(a)); }
extern "C" void x_none() { F f(&t_sum); f(); }
extern "C" void x_swapped(int a, long b) { F f(&t_sum); f(long(b), int(a)); }
extern "C" void x_other(int a) { F f(&t_sum); f(int(a), int(a)); }
extern "C" void x_unsigned(int a, long b) { F f(&t_sum); f(unsigned(a), long(b)); }
extern "C" long x_result(int a, long b) { F f(&t_sum); return f.call<long>(int(a), long(b)); }
extern "C" void x_noresult(int a, long b) { F f(&t_sum); f.call<void>(int(a), long(b)); }
extern "C" int x_callfewer(int a) { F f(&t_sum); return f.call<int>(int(a)); }
extern "C" float x_float(float a) { F f(&t_real); return f.call<float>(float(a)); }
extern "C" int x_void() { F f(&t_void); return f.call<int>(); }
extern "C" void x_given(int a) { F f(&t_void); f(int(a)); }
extern "C" void x_literal(int a) { F f(&t_text); f("text", int(a)); }
