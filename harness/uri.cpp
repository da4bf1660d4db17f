#include "http/Encodings.hpp"
using namespace webfront;
using View = std::string_view;
extern "C" void report(View* scheme, View* userinfo, View* host, View* port, View* authority, View* path, View* query, View* fragment);
static void show(const uri::URI& u) {
    View scheme(u.scheme), userinfo(u.userinfo), host(u.host), port(u.port), authority(u.authority), path(u.path), query(u.query), fragment(u.fragment);
    report(&scheme, &userinfo, &host, &port, &authority, &path, &query, &fragment);
}
extern "C" void u_split(std::string& text) { uri::URI u(std::move(text)); show(u); }
extern "C" void u_copy(std::string& text) {
    auto* u = new uri::URI(std::move(text));
    uri::URI v(*u);
    delete u;
    show(v);
}
