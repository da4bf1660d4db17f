#include "http/MimeType.hpp"
using namespace webfront;
extern "C" void h_mime(std::string_view* o, std::string_view s) { *o = http::MimeType(s).toString(); }
extern "C" void h_ext(std::string_view* o, std::string_view s) { *o = http::MimeType::fromExtension(s).toString(); }
