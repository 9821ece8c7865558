// Reads an image the way a C compiler would.
#pragma once
#include "drv.h"
#include <fstream>
inline std::string image(std::string const& f) {
    std::ifstream in(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); size_t i = 0; bool ok = s.compare(0, 9, "/* XPM */") == 0;
    auto skip = [&] { for (;;) { while (i < s.size() && std::isspace((unsigned char)s[i])) ++i; if (s.compare(i, 2, "/*") == 0) { size_t e = s.find("*/", i + 2); if (e == std::string::npos) { i = s.size(); return; } i = e + 2; } else return; } };
    auto eat = [&](std::string const& w) { skip(); if (s.compare(i, w.size(), w) == 0) { i += w.size(); return true; } return false; };
    ok = ok && eat("static") && eat("char") && eat("*"); skip(); while (i < s.size() && (std::isalnum((unsigned char)s[i]) || s[i] == '_')) ++i;
    ok = ok && eat("[]") && eat("=") && eat("{");
    std::vector<std::string> v;
    while (ok) { skip(); if (i < s.size() && s[i] == '"') { size_t e = s.find('"', i + 1); if (e == std::string::npos) { ok = false; break; } v.push_back(s.substr(i + 1, e - i - 1)); i = e + 1; if (!eat(",")) break; } else break; }
    ok = ok && eat("}") && eat(";"); skip(); ok = ok && i == s.size() && !v.empty();
    long long c = -1, r = -1, n = -1, w = -1; if (!v.empty()) { std::istringstream is(v[0]); is >> c >> r >> n >> w; if (!is) ok = false; }
    std::string pal, pix;
    for (size_t k = 1; k < v.size(); ++k) {
        if ((long long)k <= n) { std::istringstream is(v[k].empty() ? "" : v[k].substr(1)); std::string a, b; is >> a >> b; if (a != "c" || b.empty() || b[0] != '#') ok = false; pal += (pal.empty() ? "" : ",") + ("{\"i\":" + Ev::quote(v[k].substr(0, 1)) + ",\"c\":" + Ev::quote(b.empty() ? "" : b.substr(1)) + "}"); }
        else { std::string row; for (char x : v[k]) row += (row.empty() ? "" : ",") + Ev::quote(std::string(1, x)); pix += (pix.empty() ? "" : ",") + ("[" + row + "]"); }
    }
    Ev e("i"); e.b("wellFormed", ok).i("columns", c).i("rows", r).i("colours", n).i("chars", w).raw("palette", "[" + pal + "]").raw("pixels", "[" + pix + "]"); return e.s + "}";
}
