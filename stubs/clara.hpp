// Stand-in for the clara command line parser (not available offline): options with one value
// ("-o value", "--option value", "--option=value"), flags, positional arguments and help.
#pragma once
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>
namespace clara {
struct Args { std::vector<std::string> v; Args(int argc, char* argv[]) : v(argv + 1, argv + argc) {} };
struct Result { std::string error; explicit operator bool() const { return error.empty(); } std::string errorMessage() const { return error; } };
struct Entry {
    bool positional = false, flag = false; std::string hint, text; std::vector<std::string> names; std::function<bool(std::string const&)> set;
    template <class T> static bool read(std::string const& s, T& x) { std::istringstream is(s); is >> x; return !is.fail(); }
    static bool read(std::string const& s, std::string& x) { x = s; return true; }
};
template <class D> struct Named : Entry {
    D& operator [] (std::string const& n) { names.push_back(n); return self(); }
    D& operator () (std::string const& d) { text = d; return self(); }
    D& required() { return self(); }
    D& optional() { return self(); }
    D& self() { return static_cast<D&>(*this); }
};
struct Opt : Named<Opt> {
    template <class T> Opt(T& x, std::string const& h) { hint = h; set = [&x](std::string const& s) { return read(s, x); }; }
    explicit Opt(bool& x) { flag = true; set = [&x](std::string const&) { x = true; return true; }; }
};
struct Arg : Named<Arg> { template <class T> Arg(T& x, std::string const& h) { positional = true; hint = h; set = [&x](std::string const& s) { return read(s, x); }; } };
struct Help : Opt { explicit Help(bool& x) : Opt(x) { names = {"-?", "-h", "--help"}; } };
struct Parser {
    std::vector<Entry> es;
    Result parse(Args const& a) const {
        std::vector<Entry const*> pos; for (auto& e : es) if (e.positional) pos.push_back(&e);
        size_t np = 0;
        for (size_t i = 0; i < a.v.size(); ++i) {
            std::string t = a.v[i], val; bool has = false;
            if (t.size() > 1 && t[0] == '-') {
                auto q = t.find('='); if (q != std::string::npos) { val = t.substr(q + 1); t = t.substr(0, q); has = true; }
                Entry const* e = nullptr; for (auto& x : es) for (auto& n : x.names) if (n == t) e = &x;
                if (!e) return {"Unrecognised token: " + t};
                if (e->flag) { e->set(""); continue; }
                if (!has) { if (i + 1 >= a.v.size() || (a.v[i + 1].size() > 1 && a.v[i + 1][0] == '-')) return {"Expected argument following " + t}; val = a.v[++i]; }
                if (!e->set(val)) return {"Unable to convert '" + val + "' to destination type"};
            } else {
                if (np == pos.size()) return {"Unrecognised token: " + t};
                if (!pos[np++]->set(t)) return {"Unable to convert '" + t + "' to destination type"};
            }
        }
        return {""};
    }
};
template <class A, class B> typename std::enable_if<std::is_base_of<Entry, A>::value && std::is_base_of<Entry, B>::value, Parser>::type operator | (A const& a, B const& b) { Parser p; p.es = {a, b}; return p; }
template <class B> typename std::enable_if<std::is_base_of<Entry, B>::value, Parser>::type operator | (Parser p, B const& b) { p.es.push_back(b); return p; }
inline std::ostream& operator << (std::ostream& os, Parser const& p) { for (auto& e : p.es) { for (auto& n : e.names) os << n << " "; os << "<" << e.hint << "> " << e.text << "\n"; } return os; }
}
