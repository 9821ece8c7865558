// Common part of all drivers: script interpreter loop and JSON event writer.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <limits>

using Tok = std::vector<std::string>;

// JSON event builder
struct Ev {
    std::string s;
    explicit Ev(std::string const& name) { s = "{\"ev\":\"" + name + "\""; }
    Ev& raw(std::string const& k, std::string const& v) { s += ",\"" + k + "\":" + v; return *this; }
    Ev& i(std::string const& k, long long v) { return raw(k, std::to_string(v)); }
    Ev& b(std::string const& k, bool v) { return raw(k, v ? "true" : "false"); }
    static std::string quote(std::string const& v) {
        std::string r = "\"";
        for (unsigned char c : v) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c == '\n') r += "\\n";
            else if (c < 32 || c > 126) { char buf[8]; std::snprintf(buf, sizeof buf, "\\u%04x", c); r += buf; }
            else r += c;
        }
        return r + "\"";
    }
    Ev& str(std::string const& k, std::string const& v) { return raw(k, quote(v)); }
    template <class C> Ev& list(std::string const& k, C const& c) {
        std::string r = "["; bool f = true;
        for (auto const& x : c) { if (!f) r += ","; f = false; r += std::to_string((long long)x); }
        return raw(k, r + "]");
    }
    template <class C> Ev& strs(std::string const& k, C const& c) {
        std::string r = "["; bool f = true;
        for (auto const& x : c) { if (!f) r += ","; f = false; r += quote(x); }
        return raw(k, r + "]");
    }
    void emit() { s += "}\n"; fwrite(s.data(), 1, s.size(), stdout); fflush(stdout); }
};

// A number that the specification treats as an integer. Everything that is no
// (32 bit) integer is mapped to a value outside every range the scripts use.
static const long long BAD = 2000000001LL;
template <class T> inline long long as_int(T v) {
    double d = (double)v;
    if (!(d >= -1.0e9 && d <= 1.0e9)) return BAD;
    long long r = (long long)std::llround(d);
    if ((double)r != d) return BAD + 1;
    return r;
}
// value scaled by a power of two, rounded
template <class T> inline long long as_scaled(T v, double scale) {
    double d = (double)v * scale;
    if (!(d >= -1.0e9 && d <= 1.0e9)) return BAD;
    return (long long)std::llround(d);
}

[[noreturn]] inline void bad_script(std::string const& why) { std::cerr << "bad script: " << why << std::endl; std::_Exit(3); }
inline long long num(std::string const& t) {
    char* e; long long v = std::strtoll(t.c_str(), &e, 10);
    if (*e || t.empty()) bad_script("number expected: " + t);
    return v;
}

// step(tokens) executes one script line; reset() is called at each case.
inline int drive(std::function<void(Tok const&)> step, std::function<void()> reset) {
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream is(line);
        Tok t; std::string x;
        while (is >> x) t.push_back(x);
        if (t.empty()) continue;
        if (t[0] == "case") {
            alarm(20);
            reset();
            Ev("case").i("id", num(t[1])).emit();
        } else if (t[0] == "quit") {
            reset();
            Ev("quit").emit();
            return 0;
        } else step(t);
    }
    return 3;
}
