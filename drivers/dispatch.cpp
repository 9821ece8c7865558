// Drives the type dispatch utilities with instrumented type lists (C17).
#include <array>
#include <functional>
#include <memory>
#include <typeinfo>
#include <complex>
#include "BlasBooster/Utilities/TypeList.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Utilities/TypeChecker.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
#include "drv.h"
using namespace BlasBooster;

template <int I> struct T_ : MatrixBase {
    static const int id = I;
    static const size_t typeIndex_ = 100 + I;   // own index of the tag for TypeChecker
    size_t index; int uid;
    T_(size_t index = 0, int uid = 0) : index(index), uid(uid) {}
    const std::type_info& getTypeInfo() const { return typeid(*this); }
    size_t getTypeIndex() const { return index; }
};
struct Run { int a, b, oa, ob; };
static std::vector<Run> ran;

struct Mask { std::vector<int> m; template <class T> bool operator()(T* = 0) const { for (int x : m) if (x == T::id) return true; return false; } };
struct Exec1 { typedef int result_type; int salt; template <class T> int operator()(T* = 0) const { ran.push_back({T::id, -1, salt, -1}); return salt * 10 + T::id; } };
struct Exec2 { typedef int result_type; int salt; template <class A, class B> int operator()(A* = 0, B* = 0) const { ran.push_back({A::id, B::id, salt, -1}); return salt * 100 + A::id * 10 + B::id; } };

// executors for the table based dispatch: compared by object identity
template <class Extra, class A> struct Dyn1 { typedef int result_type;
    int operator()(DynamicMatrix const& p) const { auto* q = static_cast<T_<0>*>(p.get()); ran.push_back({A::id, -1, q->uid, -1}); return 1000 + 10 * q->uid + A::id; } };
template <class Extra, class A, class B> struct Dyn2 { typedef int result_type;
    int operator()(DynamicMatrix const& p, DynamicMatrix const& r) const {
        auto* q = static_cast<T_<0>*>(p.get()); auto* s = static_cast<T_<0>*>(r.get());
        ran.push_back({A::id, B::id, q->uid, s->uid}); return 1000 + 100 * q->uid + 10 * A::id + B::id + 7 * s->uid; } };
struct ExtraTag {};
template <class R, class... A> struct Fn : std::function<R(A...)> { typedef R result_type; using std::function<R(A...)>::function; };
typedef Fn<int, DynamicMatrix const&> F1;
typedef Fn<int, DynamicMatrix const&, DynamicMatrix const&> F2;

static void log(Ev& e, bool err, long long ret) {
    std::string s = "[";
    for (size_t i = 0; i < ran.size(); ++i) s += std::string(i ? "," : "") + "{\"a\":" + std::to_string(ran[i].a) + ",\"b\":" + std::to_string(ran[i].b)
        + ",\"oa\":" + std::to_string(ran[i].oa) + ",\"ob\":" + std::to_string(ran[i].ob) + "}";
    e.raw("ran", s + "]").b("err", err).i("ret", ret).emit();
    ran.clear();
}
template <class L> struct Ids;
template <class... Ts> struct Ids<TypeList<Ts...>> { static std::vector<int> get() { return {Ts::id...}; }
    template <class F> static void each(F f) { (f((Ts*)0), ...); } };

template <class L> struct Ops {
    static void run(Tok const& t) {
        auto ids = Ids<L>::get();
        if (t[0] == "if1") {            // if1 list salt m...
            Mask m; for (size_t i = 3; i < t.size(); ++i) m.m.push_back(num(t[i]));
            Ev e("if1"); e.list("types", ids).list("m", m.m).i("salt", num(t[2]));
            int r = -1; bool err = false;
            try { r = exec_if<L>(m, Exec1{(int)num(t[2])}); } catch (CoreException const&) { err = true; }
            log(e, err, r);
        } else if (t[0] == "if2") {     // if2 list salt n m1... m2...
            Mask m1, m2; size_t n = num(t[3]);
            for (size_t i = 4; i < t.size(); ++i) (i < 4 + n ? m1 : m2).m.push_back(num(t[i]));
            Ev e("if2"); e.list("types", ids).list("m", m1.m).list("m2", m2.m).i("salt", num(t[2]));
            int r = -1; bool err = false;
            try { r = exec_if_2dim<L>(m1, m2, Exec2{(int)num(t[2])}); } catch (CoreException const&) { err = true; }
            log(e, err, r);
        } else if (t[0] == "chk") {     // chk list index : TypeChecker as predicate
            Ev e("chk"); e.list("types", ids).i("x", num(t[2]));
            int r = -1; bool err = false;
            try { r = exec_if<L>(TypeChecker(100 + num(t[2])), Exec1{3}); } catch (CoreException const&) { err = true; }
            log(e, err, r);
        } else if (t[0] == "dyn1") {    // dyn1 list pos uid
            Ev e("dyn1"); e.list("types", ids).i("p", num(t[2])).i("u", num(t[3]));
            DynamicMatrix a = std::make_shared<T_<0>>(num(t[2]), num(t[3]));
            int r = exec_dyn<L, Dyn1, TypeList<ExtraTag>, F1>(a);
            log(e, false, r);
        } else if (t[0] == "dyn2") {    // dyn2 list p u q v
            Ev e("dyn2"); e.list("types", ids).i("p", num(t[2])).i("u", num(t[3])).i("q", num(t[4])).i("v", num(t[5]));
            DynamicMatrix a = std::make_shared<T_<0>>(num(t[2]), num(t[3])), b = std::make_shared<T_<0>>(num(t[4]), num(t[5]));
            int r = exec_dyn_2dim<L, Dyn2, TypeList<ExtraTag>, F2>(a, b);
            log(e, false, r);
        } else if (t[0] == "list") {    // list list : compile time queries
            std::vector<int> idx, miss; std::vector<int> at;
            idx.push_back(GetIndex<T_<0>, L>::value); idx.push_back(GetIndex<T_<1>, L>::value); idx.push_back(GetIndex<T_<2>, L>::value);
            idx.push_back(GetIndex<T_<3>, L>::value); idx.push_back(GetIndex<T_<4>, L>::value); idx.push_back(GetIndex<T_<5>, L>::value);
            at_(at, std::make_index_sequence<GetSize<L>::value>());
            Ev e("list"); e.list("types", ids).list("idx", idx).list("at", at).i("size", GetSize<L>::value); e.emit();
        } else bad_script(t[0]);
    }
    template <size_t... I> static void at_(std::vector<int>& v, std::index_sequence<I...>) { v = { GetType<I, L>::type::id... }; }
};
int main() {
    std::vector<void (*)(Tok const&)> lists = {
        Ops<TypeList<T_<0>>>::run, Ops<TypeList<T_<3>>>::run,
        Ops<TypeList<T_<0>, T_<1>>>::run, Ops<TypeList<T_<4>, T_<2>>>::run,
        Ops<TypeList<T_<0>, T_<1>, T_<2>>>::run, Ops<TypeList<T_<2>, T_<0>, T_<5>>>::run,
        Ops<TypeList<T_<3>, T_<1>, T_<0>, T_<2>>>::run,
        Ops<TypeList<T_<0>, T_<1>, T_<2>, T_<3>, T_<4>>>::run, Ops<TypeList<T_<4>, T_<3>, T_<2>, T_<1>, T_<0>>>::run,
        Ops<TypeList<T_<5>, T_<4>, T_<0>, T_<3>, T_<1>, T_<2>>>::run };
    return drive([&](Tok const& t) { size_t k = num(t[1]); if (k >= lists.size()) bad_script("list"); lists[k](t); }, [] { ran.clear(); });
}
