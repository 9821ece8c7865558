// Executes programs of tracked operations with a scripted clock (C18).
#include <complex>
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MatrixMultExp.h"
#include "BlasBooster/Core/Multiplication_Native.h"
#include "BlasBooster/Core/Multiplication_OpenBLAS.h"
#include "BlasBooster/Core/Multiplication_IntelMKL.h"
#include "BlasBooster/Core/Multiplication_Eigen.h"
#include "BlasBooster/Core/BlockSizeGenerator.h"
#include "BlasBooster/Utilities/Tracker.h"
#include "drv.h"
using namespace BlasBooster;
static long long fake_ns = 0, kernel_ns = 0;
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(fake_ns)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fake_ns)); }
}}}
extern "C" {   // kernels that take kernel_ns
void dgemm_(void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*) { fake_ns += kernel_ns; }
void sgemm_(void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*, void*) { fake_ns += kernel_ns; }
void mkl_stub() { fake_ns += kernel_ns; }
}
namespace BlasBooster {
}
static const size_t NID = static_cast<size_t>(TrackerID::size);
static std::string pair_of(long long ns) { return "[" + std::to_string(ns / 1000000) + "," + std::to_string(ns % 1000000) + "]"; }
static std::array<clock::duration, NID> boot_time; static std::array<size_t, NID> boot_count;
static Ev& show(Ev& e, bool boot = false) {
    auto const& c = boot ? boot_count : TrackerRegister::count; auto const& t = boot ? boot_time : TrackerRegister::time;
    std::vector<long long> cs; std::string ts = "[";
    for (size_t i = 0; i < NID; ++i) {
        cs.push_back(c[i] > 1000000000 ? BAD : (long long)c[i]);
        long long ns = std::chrono::duration_cast<std::chrono::nanoseconds>(t[i]).count();
        if (ns < 0 || ns > 2000000000000000LL) ns = 1999999999999999LL;
        ts += (i ? "," : "") + pair_of(ns);
    }
    return e.list("count", cs).raw("time", ts + "]");
}
struct Unwind { int left; };
struct Prog {
    Tok ops; size_t pc = 0; int depth = 0;
    template <TrackerID I> void scope() { Tracker<I> tracker; Ev e("begin"); e.i("h", depth).i("id", (int)I); show(e).emit(); run(); }
    typedef void (Prog::*Fn)();
    template <size_t... I> static std::array<Fn, NID> table(std::index_sequence<I...>) { return {{&Prog::scope<(TrackerID)I>...}}; }
    void enter(int id) {
        static auto const tab = table(std::make_index_sequence<NID>());
        if (id < 0 || id >= (int)NID) bad_script("id");
        ++depth;
        int left = 0;
        try { (this->*tab[id])(); } catch (Unwind const& u) { left = u.left; }
        Ev e("complete"); e.i("h", depth).b("thrown", left > 0); show(e).emit();
        --depth;
        if (left > 1) throw Unwind{left - 1};
    }
    void run() {                                // one scope: until its end
        while (pc < ops.size()) {
            std::string o = ops[pc++];
            char k = o[0]; long long v = o.size() > 1 ? num(o.substr(1)) : 0;
            if (k == 'B') enter(v);
            else if (k == 'A') { fake_ns += v; Ev e("advance"); e.raw("d", pair_of(v)); show(e).emit(); }
            else if (k == 'E') return;
            else if (k == 'X') { if (v < 1 || v > depth) bad_script("unwind"); throw Unwind{(int)v}; }
            else if (k == 'P') report();
            else bad_script(o);
        }
    }
    static void report() {
        std::ostringstream os; TrackerRegister::print(os);
        std::istringstream is(os.str()); std::string line, js = "["; int other = 0; bool body = false; EnumParser<TrackerID> names;
        while (std::getline(is, line)) {
            if (line.find_first_not_of(" -\r") == std::string::npos) { if (line.find('-') != std::string::npos) body = true; continue; }
            if (!body) continue;                // heading
            std::istringstream ls(line); std::string name, a, b, c; ls >> name >> a >> b >> c;
            int id = -1; for (size_t i = 0; i < NID; ++i) if (names((TrackerID)i) == name) id = i;
            std::string cnt, tim;
            if (c == "ns") { cnt = a; tim = b; }
            else if (line.size() > 30) { cnt = line.substr(20, 10); tim = line.substr(30); }
            char* e1; char* e2; long long n = std::strtoll(cnt.c_str(), &e1, 10), t = std::strtoll(tim.c_str(), &e2, 10);
            if (id < 0 || e1 == cnt.c_str() || e2 == tim.c_str()) { ++other; continue; }
            js += (js.size() > 1 ? "," : "") + ("{\"id\":" + std::to_string(id)) + ",\"count\":" + std::to_string(n) + ",\"time\":" + pair_of(t) + "}";
        }
        Ev e("report"); e.raw("lines", js + "]").i("other", other); show(e).emit();
    }
};
template <size_t... I> static std::array<void*(*)(), NID> makers(std::index_sequence<I...>) { return {{+[]() -> void* { return new Tracker<(TrackerID)I>; }...}}; }
template <size_t... I> static std::array<void(*)(void*), NID> killers(std::index_sequence<I...>) { return {{+[](void* p) { delete (Tracker<(TrackerID)I>*)p; }...}}; }
static std::map<int, std::pair<int, void*>> handles;
template <class T> static Matrix<Dense, T> dense(size_t r, size_t c) { Matrix<Dense, T> m(r, c); T v = 1; for (auto& x : m) x = v++; return m; }
template <class I, class A, class B> static void mult(A const& a, B const& b) { (a * b).template execute<I>(); }
static void real(Tok const& t) {
    std::string o = t[1]; size_t m = num(t[2]), k = num(t[3]), n = num(t[4]); kernel_ns = t.size() > 5 ? num(t[5]) : 0;
    auto A = dense<double>(m, k), B = dense<double>(k, n); auto Af = dense<float>(m, k), Bf = dense<float>(k, n);
    Matrix<Sparse, double> As(A), Bs(B); Matrix<Zero> Az(m, k), Bz(k, n);
    if (o == "GeneralDense_dd") mult<Native>(A, B);
    else if (o == "GeneralDense_ff") mult<Native>(Af, Bf);
    else if (o == "GeneralDense_df") mult<Native>(A, Bf);
    else if (o == "sparse") mult<Native>(As, Bs);
    else if (o == "sparse_dense") mult<Native>(As, B);
    else if (o == "dense_sparse") mult<Native>(A, Bs);
    else if (o == "dense_zero") mult<Native>(A, Bz);
    else if (o == "sparse_zero") mult<Native>(As, Bz);
    else if (o == "zero_dense") mult<Native>(Az, B);
    else if (o == "zero_sparse") mult<Native>(Az, Bs);
    else if (o == "zero_zero") mult<Native>(Az, Bz);
    else if (o == "openblas_d") mult<OpenBLAS>(A, B);
    else if (o == "openblas_s") mult<OpenBLAS>(Af, Bf);
    else if (o == "mkl_d") mult<IntelMKL>(A, B);
    else if (o == "mkl_s") mult<IntelMKL>(Af, Bf);
    else if (o == "eigen_d") mult<EigenI>(A, B);
    else if (o == "eigen_s") mult<EigenI>(Af, Bf);
    else if (o == "detect") BlockSizeGenerator(1, 2).get_detection_arrays(A);
    else if (o == "block") BlockSizeGenerator(1, 2).get_block_size(std::vector<double>(m, 1.0));
    else bad_script(o);
    if (kernel_ns) { Ev e("timed"); e.str("op", o).raw("d", pair_of(kernel_ns)); show(e).emit(); }
    else { Ev e("real"); e.str("op", o); show(e).emit(); }
}
int main() {
    boot_time = TrackerRegister::time; boot_count = TrackerRegister::count;
    auto make = makers(std::make_index_sequence<NID>()); auto kill = killers(std::make_index_sequence<NID>());
    return drive([&](Tok const& t) {
        if (t[0] == "boot") { Ev e("boot"); show(e, true).emit(); }
        else if (t[0] == "prog") { Prog p; p.ops = Tok(t.begin() + 1, t.end()); p.run(); }
        else if (t[0] == "open") {
            int h = num(t[1]), id = num(t[2]); handles[h] = {id, make[id]()};
            Ev e("begin"); e.i("h", h).i("id", id); show(e).emit();
        } else if (t[0] == "close") {
            int h = num(t[1]); auto x = handles[h]; handles.erase(h); kill[x.first](x.second);
            Ev e("complete"); e.i("h", h).b("thrown", false); show(e).emit();
        } else if (t[0] == "advance") { fake_ns += num(t[1]); Ev e("advance"); e.raw("d", pair_of(num(t[1]))); show(e).emit(); }
        else if (t[0] == "report") Prog::report();
        else if (t[0] == "real") real(t);
        else if (t[0] == "blocks") {
            size_t r = num(t[1]), c = num(t[2]), mx = num(t[3]);
            BlockSizeGenerator(mx / 2, mx)(dense<double>(r, c));
            Ev e("blocks"); e.i("r", r).i("c", c).i("max", mx); show(e).emit();
        } else bad_script(t[0]);
    }, [] { for (auto& h : handles) (void)h; handles.clear(); TrackerRegister::count.fill(0); TrackerRegister::time.fill(clock::duration(0)); fake_ns = 1000; kernel_ns = 0; });
}
