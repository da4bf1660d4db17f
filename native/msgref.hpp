// reference implementation of the parameter encoding, written from the comments of CodedType
#pragma once
#include "oracle.hpp"
#include <cmath>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <span>
#include <tuple>
#include <map>
#include <utility>
#include <vector>
#include <http/WebSocket.hpp>
#include <networking/BasicNetworking.hpp>
#include <weblink/Messages.hpp>
using namespace webfront;
struct PNet : networking::BasicNetworking<> {};
using Bytes = std::span<const std::byte>;
inline Bytes bytesOf(std::string_view s) { return {reinterpret_cast<const std::byte*>(s.data()), s.size()}; }
inline struct Quiet { Quiet() { std::cout.setstate(std::ios::badbit); std::clog.setstate(std::ios::badbit); } } quiet;

template<typename T> struct isTuple : std::false_type {};
template<typename... A> struct isTuple<std::tuple<A...>> : std::true_type {};

template<typename T> bool refDecode(std::string_view& d, T& v) {
    if (d.empty()) return false;
    auto code = uint8_t(d[0]);
    if (code == 0) { v = {}; d.remove_prefix(1); return true; }
    if constexpr (isTuple<T>::value) {
        if (code != 18 || d.size() < 2 || uint8_t(d[1]) != std::tuple_size_v<T>) return false;
        d.remove_prefix(2);
        return std::apply([&](auto&... e) { return (refDecode(d, e) && ...); }, v);
    }
    else if constexpr (std::is_same_v<T, std::string>) {
        size_t h, n;
        if (code == 4) { if (d.size() < 2) return false; h = 2; n = uint8_t(d[1]); }
        else if (code == 5 || code == 6) { if (d.size() < 3) return false; h = 3; n = uint8_t(d[1]) + 256 * uint8_t(d[2]); }
        else return false;
        if (d.size() - h < n) return false;
        v = std::string(d.substr(h, n));
        d.remove_prefix(h + n);
        return true;
    }
    else {
        if (code == 1 || code == 2) { v = T(code == 1); d.remove_prefix(1); return true; }
        if (code != 3 || d.size() < 9) return false;
        double x;
        memcpy(&x, d.data() + 1, 8);
        if constexpr (std::is_integral_v<T> && !std::is_same_v<T, bool>) {
            if (std::isnan(x)) return false;
            double t = std::trunc(x);
            if (t < double(std::numeric_limits<T>::lowest())) return false;
            if (t >= std::ldexp(1.0, std::numeric_limits<T>::digits)) return false;
        }
        v = T(x);
        d.remove_prefix(9);
        return true;
    }
}
template<typename T> bool equal(const T& a, const T& b) {
    if constexpr (std::is_floating_point_v<T>) return a == b || (std::isnan(a) && std::isnan(b));
    else if constexpr (isTuple<T>::value) return [&]<size_t... I>(std::index_sequence<I...>) { return (equal(std::get<I>(a), std::get<I>(b)) && ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
    else return a == b;
}
inline std::string refString(std::string_view s, uint8_t longCode = 5, bool forceLong = false) {
    if (s.size() < 256 && !forceLong) return Out().u8(4).u8(s.size()).raw(s).d;
    return Out().u8(longCode).u16(s.size()).raw(s).d;
}
template<typename T> std::string refEncode(const T& v) {
    if constexpr (isTuple<T>::value) {
        std::string r = Out().u8(18).u8(std::tuple_size_v<T>).d;
        std::apply([&](auto&... e) { ((r += refEncode(e)), ...); }, v);
        return r;
    }
    else if constexpr (std::is_same_v<T, bool>) return Out().u8(v ? 1 : 2).d;
    else if constexpr (std::is_arithmetic_v<T>) {
        double x = double(v);
        uint64_t u;
        memcpy(&u, &x, 8);
        return Out().u8(3).u64(u).d;
    }
    else if constexpr (std::is_base_of_v<std::exception, T>) return refString(v.what(), 6, true);
    else return refString(std::string_view(v));
}
template<typename T> int refCount(const T& v) {
    int n = 1;
    if constexpr (isTuple<T>::value) std::apply([&](auto&... e) { ((n += refCount(e)), ...); }, v);
    return n;
}
inline std::string flat(auto&& buffers) {
    std::string r;
    for (auto& b : buffers) r.append(static_cast<const char*>(b.data()), b.size());
    return r;
}
// ---- values of any type from a byte input
template<typename T> void read(In& in, T& v) {
    if constexpr (isTuple<T>::value) std::apply([&](auto&... e) { ((read(in, e)), ...); }, v);
    else if constexpr (std::is_same_v<T, std::string>) {
        auto k = in.u16();
        v = in.bytes(std::min<size_t>(k, 64));
        size_t n = k;
        if (v.size() < n) v.resize(n, char('a' + n % 26));
    }
    else if constexpr (std::is_same_v<T, bool>) v = in.u8() & 1;
    else { uint64_t u = in.u64(); T x; memcpy(&x, &u, sizeof(x)); v = x; }
}
inline std::string genNumber(Rng& r) {
    double specials[] = {0., -0., 1., -1., 127., 128., 255., 256., -128., -129., 65535., 2147483647., 2147483648., -2147483648., -2147483649., 4294967295., 4294967296., 9007199254740992., 9223372036854775808.,
                         -9223372036854775808., 18446744073709551616., 1e300, -1e300, 0.5, -0.5, -0.99, 255.5, INFINITY, -INFINITY, NAN, 3.25};
    double x = r.chance(70) ? r.pick(specials) : double(int64_t(r.next())) / double(1ull << r.below(64));
    uint64_t u;
    memcpy(&u, &x, 8);
    return Out().u64(u).d;
}
inline std::string genParam(Rng& r, int depth = 0) {
    switch (r.below(depth > 2 ? 7 : 8)) {
    case 0: return Out().u8(r.below(3)).d;
    case 1: return Out().u8(1 + r.below(2)).d;
    case 2: case 3: return Out().u8(3).d + genNumber(r);
    case 4: { auto n = r.size(255, {0, 255}); return Out().u8(4).u8(n).d + r.bytes(n); }
    case 5: { auto n = r.size(400, {0, 256}); return Out().u8(5 + r.below(2)).u16(n).d + r.bytes(n); }
    case 6: return Out().u8(r.byte()).d;
    default: { auto n = 1 + r.below(3); auto s = Out().u8(18).u8(n).d; while (n--) s += genParam(r, depth + 1); return s; }
    }
}
