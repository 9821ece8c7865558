// Dispatch over the library's own DynamicMatrixTypeList with real matrices (C17).
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/DynamicMatrixFunctions.h"
#include "BlasBooster/Utilities/exec_if.h"
#include "BlasBooster/Utilities/exec_if_2dim.h"
#include "BlasBooster/Utilities/exec_dyn.h"
#include "BlasBooster/Utilities/exec_dyn_2dim.h"
#include "drv.h"
using namespace BlasBooster;
typedef Matrix<Zero> Z; typedef Matrix<Sparse, float> SF; typedef Matrix<Dense, float> DF; typedef Matrix<Sparse, double> SD;
typedef Matrix<Dense, double> DD; typedef MultipleMatrix<SD, SF> MS; typedef MultipleMatrix<SD, DF> MD;
template <class T> struct Pos;   // documented order of the type list
template <> struct Pos<Z> { static constexpr int v = 0; };
template <> struct Pos<SF> { static constexpr int v = 1; };
template <> struct Pos<DF> { static constexpr int v = 2; };
template <> struct Pos<SD> { static constexpr int v = 3; };
template <> struct Pos<MS> { static constexpr int v = 4; };
template <> struct Pos<MD> { static constexpr int v = 5; };
template <> struct Pos<DD> { static constexpr int v = 6; };
static DynamicMatrix make(int k, size_t r, size_t c) {
    switch (k) {
    case 0: return std::make_shared<Z>(r, c);
    case 1: return std::make_shared<SF>(r, c);
    case 2: return std::make_shared<DF>(r, c);
    case 3: return std::make_shared<SD>(r, c);
    case 4: return std::make_shared<MS>(std::make_shared<SD>(r, c), std::make_shared<SF>(r, c));
    case 5: return std::make_shared<MD>(std::make_shared<SD>(r, c), std::make_shared<DF>(r, c));
    case 6: return std::make_shared<DD>(r, c);
    }
    bad_script("kind");
}
static std::vector<int> ran;
struct E1 { typedef int result_type; template <class T> int operator()(T* = 0) const { ran.push_back(Pos<T>::v); return Pos<T>::v; } };
struct E2 { typedef int result_type; template <class A, class B> int operator()(A* = 0, B* = 0) const { ran.push_back(Pos<A>::v); ran.push_back(Pos<B>::v); return 0; } };
template <class X, class A> struct D1 { int operator()(DynamicMatrix const& p) const { ran.push_back(Pos<A>::v); return dynamic_cast<A*>(p.get()) ? 1 : 0; } };
template <class X, class A, class B> struct D2 { int operator()(DynamicMatrix const& p, DynamicMatrix const& q) const {
    ran.push_back(Pos<A>::v); ran.push_back(Pos<B>::v); return dynamic_cast<A*>(p.get()) && dynamic_cast<B*>(q.get()) ? 1 : 0; } };
struct Tag {};
int main() {
    return drive([&](Tok const& t) {
        if (t[0] == "one") {
            int k = num(t[1]);
            DynamicMatrix m = make(k, num(t[2]), num(t[3]));
            exec_if<DynamicMatrixTypeList>(TypeChecker(m->getTypeIndex()), E1());
            int same = exec_dyn<DynamicMatrixTypeList, D1, TypeList<Tag>, std::function<int(DynamicMatrix const&)>>(m);
            Ev("real").i("pos", k).i("index", m->getTypeIndex()).i("r", num(t[2])).i("c", num(t[3])).i("rows", getNbRows(m)).i("cols", getNbColumns(m))
                .i("size", getSize(m)).list("ran", ran).i("same", same).emit();
        } else if (t[0] == "two") {
            DynamicMatrix a = make(num(t[1]), 2, 3), b = make(num(t[2]), 3, 2);
            exec_if_2dim<DynamicMatrixTypeList>(TypeChecker(a->getTypeIndex()), TypeChecker(b->getTypeIndex()), E2());
            int same = exec_dyn_2dim<DynamicMatrixTypeList, D2, TypeList<Tag>, std::function<int(DynamicMatrix const&, DynamicMatrix const&)>>(a, b);
            Ev("real2").i("p", num(t[1])).i("q", num(t[2])).list("ran", ran).i("same", same).emit();
        } else bad_script(t[0]);
        ran.clear();
    }, [] { ran.clear(); });
}
