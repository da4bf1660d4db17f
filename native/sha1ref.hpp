// FIPS 180-4 SHA-1, written from the standard
#pragma once
#include <array>
#include <cstdint>
#include <string>
inline std::array<uint32_t, 5> sha1Reference(std::string_view s) {
    std::string m(s);
    m += char(0x80);
    while (m.size() % 64 != 56) m += '\0';
    uint64_t bits = uint64_t(s.size()) * 8;
    for (int i = 56; i >= 0; i -= 8) m += char(bits >> i);
    std::array<uint32_t, 5> h{0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    auto rot = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (size_t o = 0; o < m.size(); o += 64) {
        uint32_t w[80];
        for (size_t i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(m[o + 4 * i])) << 24 | uint32_t(uint8_t(m[o + 4 * i + 1])) << 16 | uint32_t(uint8_t(m[o + 4 * i + 2])) << 8 | uint8_t(m[o + 4 * i + 3]);
        for (int i = 16; i < 80; ++i) w[i] = rot(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
        auto [a, b, c, d, e] = h;
        for (int i = 0; i < 80; ++i) {
            uint32_t f, k;
            if (i < 20) f = (b & c) ^ (~b & d), k = 0x5A827999;
            else if (i < 40) f = b ^ c ^ d, k = 0x6ED9EBA1;
            else if (i < 60) f = (b & c) ^ (b & d) ^ (c & d), k = 0x8F1BBCDC;
            else f = b ^ c ^ d, k = 0xCA62C1D6;
            uint32_t t = rot(a, 5) + f + e + k + w[i];
            e = d; d = c; c = rot(b, 30); b = a; a = t;
        }
        h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    return h;
}
