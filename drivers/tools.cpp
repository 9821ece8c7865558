// Runs the command line tools on files of a scratch directory. TOOL_GENERATE, TOOL_SHOW and
// TOOL_BENCH name the programs.
#include "drv.h"
#include "xpm.h"
#include <algorithm>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
typedef std::vector<long long> L;
typedef std::vector<std::string> A;
static std::string dir;
static std::vector<std::string> names;
static const double LOW = 1.0 / (1 << 30);
static std::string path(std::string const& f) { return dir + "/" + f; }
static std::string text(double x) { char b[64]; std::snprintf(b, sizeof b, "%.17g", x); return b; }
static std::string text(std::string const& hi, std::string const& lo) { return text((double)num(hi) + (double)num(lo) * LOW); }
static void split(double x, long long& hi, long long& lo) {
    if (!(std::fabs(x) < 1e9)) { hi = lo = BAD; return; }
    double h = std::round(x); hi = (long long)h; lo = as_int((x - h) / LOW);
}
static std::string slurp(std::string const& f) { std::ifstream in(f, std::ios::binary); return std::string((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>()); }
static void put(std::string const& f, std::string const& s) { std::ofstream o(f, std::ios::binary | std::ios::trunc); o << s; }
static bool exists(std::string const& f) { struct stat s; return ::stat(f.c_str(), &s) == 0; }
static void numbers(Ev& e, std::string const& f) {
    std::string s = slurp(f); L hi, lo;
    for (size_t i = 0; i < s.size(); i += 8) { long long h = BAD, l = BAD; if (i + 8 <= s.size()) { double x; std::memcpy(&x, s.data() + i, 8); split(x, h, l); } hi.push_back(h); lo.push_back(l); }
    e.list("hi", hi).list("lo", lo);
}
// exit status, or 1000 + the signal
static int run(char const* tool, A const& args) {
    char const* exe = std::getenv(tool); if (!exe) bad_script(tool);
    std::vector<char*> v; v.push_back(const_cast<char*>(exe)); for (auto& a : args) v.push_back(const_cast<char*>(a.c_str())); v.push_back(nullptr);
    pid_t p = fork(); if (p < 0) bad_script("fork");
    if (p == 0) {
        if (chdir(dir.c_str())) _exit(125);
        int o = ::open("out.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = ::open("err.txt", O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(o, 1); dup2(e, 2); alarm(15); execv(exe, v.data()); _exit(126);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0) {}
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}
static void done(Ev e) {
    std::string s;
    for (auto& n : names) if (exists(path(n + ".dat"))) { Ev f("f"); f.str("f", n); numbers(f, path(n + ".dat")); s += (s.empty() ? "" : ",") + f.s + "}"; }
    e.raw("files", "[" + s + "]").emit();
}
static void option(A& a, std::string const& style, std::string const& s, std::string const& l, std::string const& v) {
    if (v == "-") return;
    if (style == "short") { a.push_back("-" + s); a.push_back(v); } else if (style == "long") { a.push_back("--" + l); a.push_back(v); } else a.push_back("--" + l + "=" + v);
}
static void spoil(A& a, std::string const& how, std::string const& numeric) {
    if (how == "unknown") a.push_back("--bogus"); else if (how == "missing") a.push_back("--" + numeric); else if (how == "word") { a.push_back("--" + numeric); a.push_back("abc"); }
    else if (how == "help") a.push_back("--help"); else if (how == "extra") { a.push_back("surplus"); a.push_back("surplus"); } else if (how != "ok" && how != "nowhere") bad_script(how);
}
static std::string descriptor(std::string const& f, std::string const& r, std::string const& c) {
    std::string d = "m-" + f + "-" + r + "-" + c + ".xml";
    put(path(d), "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>\n<nbRows>" + r + "</nbRows>\n<nbColumns>" + c + "</nbColumns>\n<rowLeadingDimension>" + r + "</rowLeadingDimension>\n<columnLeadingDimension>" + c + "</columnLeadingDimension>\n<rowOffset>0</rowOffset>\n<columnOffset>0</columnOffset>\n<filename>" + path(f + ".dat") + "</filename>\n");
    return d;
}
static A cut(std::string const& s, char c) { A v; std::string x; std::istringstream is(s); while (std::getline(is, x, c)) v.push_back(x); return v; }
static L nums(std::string const& s) { L v; for (auto& x : cut(s, ',')) v.push_back(num(x)); return v; }
static std::string arr(L const& v) { std::string s; for (auto x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return "[" + s + "]"; }
static void clear() {
    if (dir.empty()) return;
    std::string c = dir; dir.clear();
    // everything the tools may have left in the scratch directory
    if (FILE* p = popen(("ls -A '" + c + "'").c_str(), "r")) { char b[512]; while (fgets(b, sizeof b, p)) { std::string f(b); while (!f.empty() && f.back() == '\n') f.pop_back(); ::unlink((c + "/" + f).c_str()); } pclose(p); }
    ::rmdir(c.c_str()); names.clear();
}
static void know(std::string const& f) { if (std::find(names.begin(), names.end(), f) == names.end()) names.push_back(f); }
int main() {
    int rc = drive([&](Tok const& t) {
        alarm(60);
        if (dir.empty()) { char cwd[4096], d[] = "tools-XXXXXX"; if (!mkdtemp(d) || !getcwd(cwd, sizeof cwd)) bad_script("mkdtemp"); dir = std::string(cwd) + "/" + d; }
        std::string const& o = t[0];
        if (o == "put") {              // file hi lo hi lo ...
            std::string s; L hi, lo;
            for (size_t i = 2; i + 1 < t.size(); i += 2) { double x = (double)num(t[i]) + (double)num(t[i + 1]) * LOW; s.append((char const*)&x, 8); hi.push_back(num(t[i])); lo.push_back(num(t[i + 1])); }
            put(path(t[1] + ".dat"), s); know(t[1]);
            done(Ev(o).str("f", t[1]).list("hi", hi).list("lo", lo));
        } else if (o == "generate") {  // file rows columns width hi lo style how ; "-": not given
            std::string const &f = t[1], &how = t[8]; A a;
            option(a, t[7], "m", "matrix-file", how == "nowhere" ? "nowhere/" + f + ".dat" : f + ".dat");
            option(a, t[7], "r", "rows", t[2]); option(a, t[7], "c", "cols", t[3]); option(a, t[7], "b", "band-width", t[4]);
            bool const negative = t[5] != "-" && (num(t[5]) < 0 || (num(t[5]) == 0 && num(t[6]) < 0));
            if (t[5] == "-") {} else if (!negative || t[7] == "eq") option(a, t[7], "v", "value", text(t[5], t[6])); else a.push_back("--value=" + text(t[5], t[6]));
            if (how == "ok") { a.push_back("--type"); a.push_back("band"); }
            spoil(a, how, "rows"); know(f);
            int st = run("TOOL_GENERATE", a);
            L v = t[5] == "-" ? L{1, 0} : L{num(t[5]), num(t[6])};
            done(Ev(o).str("f", f).i("r", num(t[2])).i("c", num(t[3])).i("b", t[4] == "-" ? 1 : num(t[4])).list("v", v).str("how", how).i("status", st));
        } else if (o == "show") {      // file rows columns mode border how min max thresholds(19) bg bgc n (i c e)...
            std::string const &f = t[1], &mode = t[4], &how = t[6]; size_t k = 7; std::string mn = t[k++], mx = t[k++];
            std::string ts, d = text(t[k], t[k + 1]), s = text(t[k + 2], t[k + 3]); long long den = num(t[k + 4]); L dv{num(t[k]), num(t[k + 1])}, sv{num(t[k + 2]), num(t[k + 3])}; k += 5;
            static char const* key[] = {"MatrixZero", "MatrixSparseFloat", "MatrixDenseFloat", "MatrixSparseDouble", "MultipleMatrixSparseDoubleSparseFloat", "MultipleMatrixDenseFloatSparseDouble", "MatrixDenseDouble"};
            std::string occ;
            for (auto q : key) {
                long long x = num(t[k++]), y = num(t[k++]); occ += std::string(occ.empty() ? "" : ",") + arr({x, y});
                ts += ", \"occupationThreshold" + std::string(q) + "DoublePrecision\": " + text((double)x / den) + ", \"occupationThreshold" + q + "SinglePrecision\": " + text((double)y / den);
            }
            std::string bg = t[k++], bgc = t[k++], pal, pj; long long n = num(t[k++]);
            for (; n > 0; --n) {
                std::string i = t[k++], c = t[k++]; long long e = num(t[k++]);
                pal += (pal.empty() ? "" : ",") + ("{\"i\":" + Ev::quote(i) + ",\"c\":" + Ev::quote(c) + ",\"e\":" + std::to_string(e) + "}");
                pj += (pj.empty() ? "" : ",") + ("{ \"index\": \"" + i + "\", \"color\": \"" + c + "\", \"threshold\": 1e" + std::to_string(-e) + " }");
            }
            put(path("s.json"), "{ \"pattern_generator_settings\": { \"background_index\": \"" + bg + "\", \"background_color\": \"" + bgc + "\"" + (pj.empty() ? "" : ", \"palette\": [" + pj + "]") + " },\n \"blocked_matrix_generator_settings\": { \"min_block_size\": " + mn + ", \"max_block_size\": " + mx
                + ", \"threshold\": { \"significanceThresholdDoublePrecision\": " + d + ", \"significanceThresholdSinglePrecision\": " + s + ts + " } } }\n");
            A a; a.push_back(descriptor(f, t[2], t[3])); a.push_back("-s"); a.push_back("s.json"); a.push_back("--pattern"); a.push_back(how == "nowhere" ? "nowhere/p.xpm" : "p.xpm");
            if (mode != "elements" || num(t[2]) % 2) { a.push_back("-t"); a.push_back(mode); }
            if (t[5] != "-") a.push_back("--border_width=" + t[5]);
            spoil(a, how, "border_width");
            ::unlink(path("p.xpm").c_str()); know(f);
            int st = run("TOOL_SHOW", a); bool here = exists(path("p.xpm"));
            done(Ev(o).str("f", f).i("r", num(t[2])).i("c", num(t[3])).str("mode", mode).i("w", t[5] == "-" ? 0 : num(t[5])).str("how", how).i("min", num(mn)).i("max", num(mx))
                .raw("th", "{\"d\":" + arr(dv) + ",\"s\":" + arr(sv) + ",\"den\":" + std::to_string(den) + ",\"occ\":[" + occ + "]}")
                .str("bg", bg).str("bgc", bgc).raw("pal", "[" + pal + "]").i("status", st).b("here", here).raw("image", here ? image(path("p.xpm")) : "{}"));
        } else if (o == "bench") {     // diff how actions A sources B sources
            std::string const& how = t[2]; std::string acts, aj, sets[2], sj[2]; int at = -1;
            for (auto& x : cut(t[3] == "-" ? "" : t[3], ',')) {
                A p = cut(x, '/'); bool blk = p.size() == 3;
                acts += (acts.empty() ? "" : ",") + ("{\"n\":" + Ev::quote(p[0]) + ",\"min\":" + (blk ? p[1] : "200") + ",\"max\":" + (blk ? p[2] : "1000") + "}");
                aj += (aj.empty() ? "" : ",") + ("\"" + p[0] + "\": {" + (blk ? " \"threshold\": { \"min_block_size\": " + p[1] + ", \"max_block_size\": " + p[2] + " } " : "") + "}");
            }
            for (size_t k = 4; k < t.size(); ++k) {
                if (t[k] == "A" || t[k] == "B") { at = t[k] == "B"; continue; }
                if (at < 0) bad_script("set");
                A p = cut(t[k], ':'); std::string e, j;
                if (p[0] == "band") { L d = nums(p[1]), w = nums(p[2]); e = "\"dims\":" + arr(d) + ",\"bws\":" + arr(w) + ",\"v\":" + arr({num(p[3]), num(p[4])}); j = "\"DiagonalBand\": { \"dimension\": " + arr(d) + ", \"band_width\": " + arr(w) + ", \"value\": " + text(p[3], p[4]) + " }"; }
                else if (p[0] == "file") { e = "\"f\":" + Ev::quote(p[1]) + ",\"r\":" + p[2] + ",\"c\":" + p[3]; j = "\"File\": \"" + path(descriptor(p[1], p[2], p[3])) + "\""; know(p[1]); }
                else if (p[0] == "equal") { e = "\"of\":" + Ev::quote(p[1]); j = "\"EqualTo\": \"" + p[1] + "\""; }
                else { e = "\"of\":\"\""; j = "\"" + p[0] + "\": {}"; }
                sets[at] += (sets[at].empty() ? "" : ",") + ("{\"k\":" + Ev::quote(p[0]) + "," + e + "}"); sj[at] += (sj[at].empty() ? "" : ", ") + j;
            }
            put(path("b.json"), "{ \"actions\": {" + aj + "},\n \"matrices\": { \"A\": {" + sj[0] + "}, \"B\": {" + sj[1] + "} },\n \"benchmark\": { \"min_replications\": 2, \"warm_up_runs\": 1 } }\n");
            A a{"-s", how == "nowhere" ? "none.json" : "b.json"}; if (t[1] == "1") a.push_back("-d"); spoil(a, how, "duration_digits");
            for (int i = 0; i < 20; ++i) ::unlink(path("diff_" + std::to_string(i) + ".dat").c_str());
            int st = run("TOOL_BENCH", a);
            std::istringstream is(slurp(path("out.txt"))); std::string line, rows; bool in = false;
            while (std::getline(is, line)) {
                if (line.compare(0, 10, "----------") == 0) { in = true; continue; }
                if (!in) continue;
                std::istringstream ls(line); std::string i, n, tm, mx, sq; if (!(ls >> i >> n >> tm >> mx >> sq) || i.find_first_not_of("0123456789") != std::string::npos) continue;
                char *e1, *e2, *e3; double m = std::strtod(mx.c_str(), &e1), q = std::strtod(sq.c_str(), &e2); std::strtod(tm.c_str(), &e3);
                if (*e1 || *e2 || *e3) continue;
                rows += (rows.empty() ? "" : ",") + ("{\"i\":" + i + ",\"n\":" + Ev::quote(n) + ",\"max\":" + std::to_string(as_scaled(m, 1 << 30)) + ",\"sq\":" + std::to_string(as_scaled(q * q * (1 << 30), 1 << 30)) + "}");
            }
            std::string diffs;
            for (int i = 0; i < 20; ++i) { std::string f = path("diff_" + std::to_string(i) + ".dat"); if (exists(f)) { Ev d("d"); d.i("i", i); numbers(d, f); diffs += (diffs.empty() ? "" : ",") + d.s + "}"; } }
            done(Ev(o).b("diff", t[1] == "1").str("how", how).raw("actions", "[" + acts + "]").raw("A", "[" + sets[0] + "]").raw("B", "[" + sets[1] + "]").i("status", st).raw("rows", "[" + rows + "]").raw("diffs", "[" + diffs + "]"));
        } else bad_script(o);
    }, clear);
    return rc;
}
