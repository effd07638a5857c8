// Rendering of everything the generated C++ API can hand over into the canonical text of mc/vals.py.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <memory>
#include <string>
#include <type_traits>
#include <utility>
#include <tuple>
#if FL_OPT == 0
#include <optional>
template <class T> using OPT = std::optional<T>;
#else
#include <boost/optional.hpp>
template <class T> using OPT = boost::optional<T>;
#endif
#if FL_VAR == 0
#include <optional>
#include <variant>
template <class T> using VOPT = std::optional<T>;
template <class A, class B> using RES = std::variant<A, B>;
template <class R, class T> R mkok(T &&x) { return R(std::in_place_index<0>, std::forward<T>(x)); }
template <class R, class T> R mker(T &&x) { return R(std::in_place_index<1>, std::forward<T>(x)); }
#else
#include <boost/optional.hpp>
#include <boost/variant.hpp>
template <class T> using VOPT = boost::optional<T>;
template <class A, class B> using RES = boost::variant<A, B>;
template <class R, class T> R mkok(T &&x) { return R(std::forward<T>(x)); }
template <class R, class T> R mker(T &&x) { return R(std::forward<T>(x)); }
#endif
#if FL_STR == 0
#include <string_view>
using STRV = std::string_view;
#else
#include <boost/utility/string_view.hpp>
using STRV = boost::string_view;
#endif

inline float fb32(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
inline double fb64(uint64_t b) { double f; memcpy(&f, &b, 8); return f; }
// exactly sized heap copy, so that reading past the end is seen
inline STRV sv(const char *p, size_t n) { static std::deque<std::unique_ptr<char[]>> pool; pool.emplace_back(new char[n ? n : 1]); memcpy(pool.back().get(), p, n); return STRV(pool.back().get(), n); }
template <class T> T &keep(T &&x) { static std::deque<std::unique_ptr<T>> pool; pool.emplace_back(new T(std::move(x))); return *pool.back(); }
template <class S, class V> S slice_of(V &v) { return S(v.begin(), v.size()); }
template <class F> struct ArgOf_;
template <class R, class A, class... X> struct ArgOf_<R (*)(A, X...)> { using type = std::decay_t<A>; };
template <class R, class A, class... X> struct ArgOf_<R (*)(A, X...) noexcept> { using type = std::decay_t<A>; };
template <class F> using ArgOf = typename ArgOf_<F>::type;

inline std::string hex(const char *p, size_t n) { std::string o; char b[3]; for (size_t i = 0; i < n; ++i) { snprintf(b, 3, "%02x", (unsigned char)p[i]); o += b; } return o; }

template <class T, class = void> struct Ser;
template <class T> std::string ser(const T &x) { return Ser<std::decay_t<T>>::go(const_cast<T &>(x)); }
template <> struct Ser<bool> { static std::string go(bool x) { return x ? "1b" : "0b"; } };
template <class T> struct Ser<T, std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>> {
    static std::string go(T x) { return std::is_signed<T>::value ? std::to_string((long long)x) : std::to_string((unsigned long long)x); }
};
template <> struct Ser<float> { static std::string go(float f) { uint32_t b; memcpy(&b, &f, 4); char s[16]; snprintf(s, 16, "f%08x", b); return s; } };
template <> struct Ser<double> { static std::string go(double f) { uint64_t b; memcpy(&b, &f, 8); char s[24]; snprintf(s, 24, "d%016llx", (unsigned long long)b); return s; } };
template <class T> struct Ser<T, std::enable_if_t<std::is_enum<T>::value>> { static std::string go(T x) { return "e" + std::to_string((unsigned)x); } };
template <> struct Ser<STRV> { static std::string go(STRV s) { return "s" + hex(s.data(), s.size()); } };
template <class T> struct Ser<T, decltype((void)std::declval<T &>().vtag())> { static std::string go(T &x) { return "o" + std::to_string(x.vtag()); } };
template <class T> struct Ser<OPT<T>> { static std::string go(OPT<T> &x) { return x ? "S(" + ser(*x) + ")" : "N"; } };
#if FL_OPT != FL_VAR
template <class T> struct Ser<VOPT<T>> { static std::string go(VOPT<T> &x) { return x ? "S(" + ser(*x) + ")" : "N"; } };
#endif
template <class T> struct Ser<T *> { static std::string go(T *x) { return x ? "S(" + ser(*x) + ")" : "N"; } };
template <class A, class B> struct Ser<RES<A, B>> {
    static std::string go(RES<A, B> &x) {
#if FL_VAR == 0
        return x.index() == 0 ? "ok(" + ser(std::get<0>(x)) + ")" : x.index() == 1 ? "er(" + ser(std::get<1>(x)) + ")" : "valueless";
#else
        return x.which() == 0 ? "ok(" + ser(boost::get<A>(x)) + ")" : "er(" + ser(boost::get<B>(x)) + ")";
#endif
    }
};
template <class A, class B> struct Ser<std::pair<A, B>> { static std::string go(std::pair<A, B> &x) { return "(" + ser(x.first) + "," + ser(x.second) + ")"; } };
template <class A, class B, class C> struct Ser<std::tuple<A, B, C>> { static std::string go(std::tuple<A, B, C> &x) { return "(" + ser(std::get<0>(x)) + "," + ser(std::get<1>(x)) + "," + ser(std::get<2>(x)) + ")"; } };
template <class T> std::string ser_seq(T &x) { std::string o = "["; size_t n = x.size(); for (size_t i = 0; i < n; ++i) { if (i) o += ","; o += ser(x[i]); } return o + "]"; }
template <class T> struct Ser<T, std::enable_if_t<std::is_same<decltype(std::declval<T &>().size()), size_t>::value && !std::is_same<T, STRV>::value && !std::is_same<T, fg::RustString>::value>> { static std::string go(T &x) { return ser_seq(x); } };
template <> struct Ser<fg::RustString> { static std::string go(fg::RustString &s) { auto t = s.to_std_string(); return "s" + hex(t.data(), t.size()); } };

static long n_checks, n_bad;
inline void chk(const char *what, unsigned k, const std::string &got, const std::string &want) {
    ++n_checks;
    if (got == want) return;
    ++n_bad;
    printf("VIOL\t%s/%u\tgot %s, want %s\t%s(value %u)\n", what, k, got.substr(0, 300).c_str(), want.substr(0, 300).c_str(), what, k);
}
inline void chks(const char *what, unsigned k, fg::RustString got, const std::string &want) { chk(what, k, got.to_std_string(), want); }
