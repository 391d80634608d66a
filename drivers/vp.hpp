// Common part of the bounded drivers: reporting, deterministic choices.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iomanip>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vp {

struct State { unsigned long n = 0; std::map<std::string, int> failed; std::string at; bool thorough = false; uint64_t x = 88172645463325252ull; };
inline State& st() { static State s; return s; }

inline uint64_t rnd() { uint64_t& x = st().x; x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
inline unsigned long rnd(unsigned long n) { return static_cast<unsigned long>((rnd() >> 11) % n); }
template <typename T> const T& pick(const std::vector<T>& v) { return v[rnd(v.size())]; }

inline void at(const std::string& s) { st().at = s; std::cout << "AT " << s << "\n" << std::flush; }

inline void fail(const std::string& label, const std::string& detail) {
    int& c = st().failed[label];
    if (++c <= 3) { std::cout << "FAIL " << label << " :: " << st().at << " " << detail << "\n" << std::flush; }
}

inline bool check(bool c, const std::string& label, const std::string& detail = "") {
    ++st().n;
    if (!c) { fail(label, detail); }
    return c;
}

template <typename T> std::string str(const T& v) { std::ostringstream o; o << std::setprecision(17) << std::boolalpha << v; return o.str(); }
inline bool same(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b; }
inline bool near(double a, double b, double tol = 1e-9) { return (std::isnan(a) && std::isnan(b)) || a == b || std::abs(a - b) <= tol * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

template <typename A, typename B> bool eq(const A& got, const B& want, const std::string& label, const std::string& detail = "") {
    ++st().n;
    if (!(got == want)) { fail(label, detail + " got " + str(got) + " expected " + str(want)); return false; }
    return true;
}
inline bool eqd(double got, double want, const std::string& label, const std::string& detail = "") {
    ++st().n;
    if (!same(got, want)) { fail(label, detail + " got " + str(got) + " expected " + str(want)); return false; }
    return true;
}
inline bool nearly(double got, double want, const std::string& label, const std::string& detail = "", double tol = 1e-9) {
    ++st().n;
    if (!near(got, want, tol)) { fail(label, detail + " got " + str(got) + " expected " + str(want)); return false; }
    return true;
}

// outcome of a call: empty when it returned, the message of the exception otherwise
inline std::string outcome(const std::function<void()>& f) {
    try { f(); } catch (const std::exception& e) { return std::string("threw ") + e.what(); } catch (...) { return "threw"; }
    return "";
}
inline bool throws(const std::function<void()>& f) { return !outcome(f).empty(); }

inline int finish() { std::cout << "EVAL " << st().n << "\n" << std::flush; return st().failed.empty() ? 0 : 1; }

inline void init() {
    const char* s = std::getenv("VERIF_SEED"); const char* t = std::getenv("VERIF_TIER");
    st().x ^= 0x9E3779B97F4A7C15ull * static_cast<uint64_t>(1 + (s != nullptr ? std::atoll(s) : 1));
    for (int i = 0; i < 8; ++i) { rnd(); }
    st().thorough = t != nullptr && std::string(t) == "thorough";
}

}  // namespace vp

void run();
int main() {
    vp::init();
    try { run(); } catch (const std::exception& e) { vp::fail("unexpected exception", e.what()); }
    return vp::finish();
}
