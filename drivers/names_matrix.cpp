// Names of the runtime types.
#include <boost/serialization/base_object.hpp>
#include <boost/serialization/nvp.hpp>
#include "BlasBooster/Core/DenseMatrix.h"
#include "BlasBooster/Core/SparseMatrix.h"
#include "BlasBooster/Core/ZeroMatrix.h"
#include "BlasBooster/Core/MultipleMatrix.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/BlockedMatrix.h"
#include "BlasBooster/Core/GenerateTypeMatrix.h"
#include "drv.h"
using namespace BlasBooster;
typedef Matrix<Sparse, double> SD; typedef Matrix<Sparse, float> SF; typedef Matrix<Dense, float> DF;
void name_tables() {
#define TN(sym, ...) Ev("typename").str("sym", sym).str("name", TypeName<__VA_ARGS__>::value()).emit();
    TN("double", double) TN("float", float) TN("size_t", size_t) TN("int", int) TN("DynamicMatrix", DynamicMatrix)
    TN("ConstDynamicMatrix", ConstDynamicMatrix) TN("Dim", Dim) TN("MultipleSDSF", MultipleMatrix<SD, SF>) TN("MultipleSDDF", MultipleMatrix<SD, DF>)
#define MN(sym, ...) Ev("matname").str("sym", sym).str("name", __VA_ARGS__::name()).emit();
    MN("Zero", Matrix<Zero>) MN("DenseDouble", Matrix<Dense, double>) MN("DenseFloat", DF) MN("DenseInt", TypeMatrix)
    MN("DenseSize", Matrix<Dense, size_t>) MN("SparseDouble", SD) MN("SparseFloat", SF)
    MN("Blocked", BlockedDenseMatrix) MN("DenseDoubleRow", Matrix<Dense, double, Parameter<size_t, RowMajor>>) MN("DenseDim", DimensionMatrix)
}
