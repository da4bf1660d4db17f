#include <memory>
#include <vector>
#include <map>
#include <optional>
#include <list>
#include "JsFunction.hpp"
#include "net.hpp"
using namespace webfront;
using F = websocket::Frame<PNet>;
extern "C" void sent(F* f, uint16_t id);
struct Link { uint16_t id; void sendFrame(F f) { sent(&f, id); } };
struct WF { using Net = PNet; Link link; Link& getLink(WebLinkId id) { link.id = id; return link; } };
using J = JsFunction<WF>;
extern "C" void j_ctor(J* j, std::string_view n, WF* w, uint16_t id) { new (j) J(n, *w, id); }
extern "C" void j_none(J* j) { (*j)(); }
extern "C" void j_i(J* j, int a) { (*j)(a); }
extern "C" void j_bd(J* j, bool a, double b) { (*j)(a, b); }
extern "C" void j_s(J* j, std::string* a) { (*j)(*a); }
extern "C" void j_vb(J* j, std::string_view a, bool b) { (*j)(a, b); }
extern "C" void j_t(J* j, std::tuple<int, double>* a) { (*j)(*a); }
extern "C" void j_ii(J* j, int a, int b) { (*j)(a); (*j)(b); }
