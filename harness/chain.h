// Any sequence of format functions applied to a formatted value, each on an rvalue, a const lvalue or an lvalue. The types of the intermediate
// values change from call to call: walk() is instantiated for every type that can come up.
#pragma once
#include "printx.h"
#include <utility>
namespace px {
// applies f to x in one of the value categories it accepts (mask: 1 rvalue, 2 const lvalue, 4 lvalue) and hands a copy of the result to k
template <bool On, class F, class X> constexpr bool can() { if constexpr (On) return std::is_invocable<F, X>::value; else return false; }
template <int M = 7, class X, class F, class K> void step(X& x, F f, K k) {
    constexpr bool r = can<(M & 1) != 0, F, X&&>(), c = can<(M & 2) != 0, F, const X&>(), l = can<(M & 4) != 0, F, X&>();
    static_assert(r || c || l, "format function cannot be called"); int n = r + c + l, w = n > 1 ? choose(0, n - 1, "category") : 0;
    if constexpr (r) { if (w-- == 0) { auto y = f(std::move(x)); k(y); return; } }
    if constexpr (c) { if (w-- == 0) { auto y = f(static_cast<const X&>(x)); k(y); return; } }
    if constexpr (l) { if (w-- == 0) { auto y = f(x); k(y); return; } }
}
#define FN_(expr) [&](auto&& y_) -> decltype(auto) requires requires { static_cast<decltype(y_)&&>(y_) expr; } { return static_cast<decltype(y_)&&>(y_) expr; }
#define PRE_FN_(op) [&](auto&& y_) -> decltype(auto) requires requires { op static_cast<decltype(y_)&&>(y_); } { return op static_cast<decltype(y_)&&>(y_); }
}
