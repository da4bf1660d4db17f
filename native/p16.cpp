#include "handler.hpp"
void check(In& in) { if (in.u8() % 2) checkTree(in, ANSWERS); else checkCase(in, ANSWERS); }
std::string generate(Rng& r) { return r.chance(80) ? std::string(1, 0) + randomCase(r) : std::string(1, 1) + randomTree(r); }
