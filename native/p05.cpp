#include "handler.hpp"
void check(In& in) { checkCase(in, HANDSHAKE); }
std::string generate(Rng& r) { return randomCase(r); }
