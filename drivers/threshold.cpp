// Drives Threshold objects (C27): values are interned, the specification treats them as opaque.
#include "BlasBooster/Core/CoreException.h"
#include "BlasBooster/Core/DynamicMatrix.h"
#include "BlasBooster/Core/Threshold.h"
#include "drv.h"
using namespace BlasBooster;
typedef Matrix<Zero> Z; typedef Matrix<Sparse, float> SF; typedef Matrix<Sparse, double> SD;
typedef Matrix<Dense, float> DF; typedef Matrix<Dense, double> DD;
static std::map<double, long long> ids;
static long long id(double v) { auto it = ids.find(v); if (it != ids.end()) return it->second; long long n = ids.size(); ids[v] = n; return n; }
static std::unique_ptr<Threshold> slots[3];
#define SETTINGS(X) X(significanceThresholdSinglePrecision) X(significanceThresholdDoublePrecision) \
 X(occupationThresholdMatrixZeroSinglePrecision) X(occupationThresholdMatrixZeroDoublePrecision) \
 X(occupationThresholdMatrixSparseFloatSinglePrecision) X(occupationThresholdMatrixSparseFloatDoublePrecision) \
 X(occupationThresholdMatrixDenseFloatSinglePrecision) X(occupationThresholdMatrixDenseFloatDoublePrecision) \
 X(occupationThresholdMatrixSparseDoubleSinglePrecision) X(occupationThresholdMatrixSparseDoubleDoublePrecision) \
 X(occupationThresholdMultipleMatrixSparseDoubleSparseFloatSinglePrecision) X(occupationThresholdMultipleMatrixSparseDoubleSparseFloatDoublePrecision) \
 X(occupationThresholdMultipleMatrixDenseFloatSparseDoubleSinglePrecision) X(occupationThresholdMultipleMatrixDenseFloatSparseDoubleDoublePrecision) \
 X(occupationThresholdMatrixDenseDoubleSinglePrecision) X(occupationThresholdMatrixDenseDoubleDoublePrecision) \
 X(min_block_size) X(max_block_size)
static void one(std::string& r, std::string const& q, std::string const& m, std::string const& t, double v) {
    if (r.size() > 1) r += ",";
    r += "{\"q\":\"" + q + "\",\"m\":\"" + m + "\",\"t\":\"" + t + "\",\"v\":" + std::to_string(id(v)) + "}";
}
template <class M> void occ(std::string& r, std::string const& m, Threshold const& h) {
    one(r, "occ", m, "float", h.getOccupationThreshold<M, float>());
    one(r, "occ", m, "double", h.getOccupationThreshold<M, double>());
}
static std::string all() {
    std::string r = "[";
    for (int s = 0; s < 3; ++s) {
        if (s) r += ",";
        std::string a = "[";
        if (slots[s]) {
            Threshold const& h = *slots[s];
            occ<Z>(a, "Zero", h); occ<SF>(a, "SparseFloat", h); occ<DF>(a, "DenseFloat", h); occ<SD>(a, "SparseDouble", h);
            occ<MultipleMatrix<SD, SF>>(a, "MultipleSDSF", h); occ<MultipleMatrix<SD, DF>>(a, "MultipleSDDF", h); occ<DD>(a, "DenseDouble", h);
            one(a, "sig", "", "float", h.getSignificanceThreshold<float>());
            one(a, "sig", "", "double", h.getSignificanceThreshold<double>());
            one(a, "min", "", "", h.get_min_block_size());
            one(a, "max", "", "", h.get_max_block_size());
        }
        r += a + "]";
    }
    return r + "]";
}
static void step(Tok const& t) {
    if (t[0] == "make") {       // make slot [setting number ...]: powers of two, numbers with many digits, huge numbers
        int s = num(t[1]);
        ThresholdSettings st;
        for (size_t i = 2; i + 1 < t.size(); i += 2) {
            double v = num(t[i + 1]);
            bool known = false;
#define X(n) if (t[i] == #n) { known = true; st.set_##n(sizeof(st.n) == sizeof(int) ? (long long)v % 2 ? v : v * 1000003 : (long long)v % 3 == 0 ? v / 64 : (long long)v % 3 == 1 ? v / 7.0e3 : v * 1.0e290 / 3); }
            SETTINGS(X)
#undef X
            if (!known) bad_script(t[i]);
        }
        std::string g = "{";
#define X(n) g += std::string(g.size() > 1 ? "," : "") + "\"" #n "\":" + std::to_string(id(st.n));
        SETTINGS(X)
#undef X
        g += "}";
        slots[s].reset(t.size() == 2 ? new Threshold() : new Threshold(st));
        Ev("make").i("s", s).raw("given", g).raw("all", all()).emit();
    } else if (t[0] == "copy") {
        int s = num(t[1]), d = num(t[2]);
        Threshold* n = new Threshold(*slots[s]);
        slots[d].reset(n);
        Ev("copy").i("s", s).i("d", d).raw("all", all()).emit();
    } else if (t[0] == "assign") {
        int s = num(t[1]), d = num(t[2]);
        if (slots[d]) *slots[d] = *slots[s];
        else { slots[d].reset(new Threshold()); *slots[d] = *slots[s]; }
        Ev("assign").i("s", s).i("d", d).raw("all", all()).emit();
    } else bad_script(t[0]);
}
int main() { return drive(step, [] { for (auto& s : slots) s.reset(); }); }
