#include "http/Encodings.hpp"
#include "http/MimeType.hpp"
using namespace webfront;
extern "C" void h_dec(std::string* o, std::string_view s) { new (o) std::string(uri::decode(s)); }
extern "C" void h_enc(std::string* o, std::string_view s) { new (o) std::string(uri::encode(s)); }
extern "C" void h_b64(std::string* o, const uint8_t* p, size_t n) { new (o) std::string(base64::detail::encode(p, n)); }
extern "C" void h_b64v(std::string* o, std::string_view s) { new (o) std::string(base64::encode(s)); }
extern "C" void h_b64n(std::string* o, std::array<uint32_t, 5>* a) { new (o) std::string(base64::encodeInNetworkOrder(*a)); }
extern "C" void h_sha(std::array<uint32_t, 5>* o, std::string_view s) { *o = crypto::sha1(s); }
extern "C" void h_shas(std::string* o, std::string_view s) { new (o) std::string(crypto::sha1String(s)); }
