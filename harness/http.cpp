#include <map>
#include <list>
#include "wsnet.hpp"
#include "http/HTTPServer.hpp"
using namespace webfront;
using namespace webfront::http;
using CB = GNet::ConstBuffer;
extern "C" void r_ctor(Response* r) { new (r) Response(); }
extern "C" void r_buffers(const Response* r, std::vector<CB>* out) { new (out) std::vector<CB>(r->toBuffers<GNet>()); }
extern "C" void r_status(Response* out, int code) { new (out) Response(Response::getStatusResponse(static_cast<Response::StatusCode>(code))); }
extern "C" void q_ctor(Request* r) { new (r) Request(); }
extern "C" int q_parse(Request* r, const char* b, const char* e) { return r->parseSomeData(b, e); }
extern "C" int q_completed(const Request* r) { return r->completed(); }
extern "C" void l_value(const Headers* h, std::string_view n, std::optional<std::string>* out) { new (out) std::optional<std::string>(h->getHeaderValue(n)); }
extern "C" void l_values(const Headers* h, std::string_view n, std::list<std::string>* out) { new (out) std::list<std::string>(h->getHeadersValues(n)); }
extern "C" int l_contain(const Headers* h, std::string_view n, std::string_view t) { return h->headersContain(n, t); }
extern "C" int q_upgrade(const Request* r, std::string_view p) { return r->isUpgradeRequest(p); }
