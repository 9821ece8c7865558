// Drives the name parsers (C19).
#define BLASBOOSTER_USE_TRACKER
#include <array>
#include "BlasBooster/Utilities/EnumParser.h"
#include "BlasBooster/Utilities/Tracker.h"
#include "drv.h"
#include <exception>
using namespace BlasBooster;
void name_tables();      // names_matrix.cpp

// an enumeration whose parser is filled from the script
enum class Scripted : int {};
static std::vector<std::pair<std::string, int>> wanted;
namespace BlasBooster { template <> EnumParser<Scripted>::EnumParser() { for (auto const& w : wanted) map(w.first, (Scripted)w.second); } }
// plain (unscoped) enumeration
enum Plain : int { plainFirst };
namespace BlasBooster { template <> EnumParser<Plain>::EnumParser() { for (auto const& w : wanted) map(w.first, (Plain)w.second); } }
static bool plain = false;

#define IDS(X) X(OpenBLAS_dgemm) X(OpenBLAS_sgemm) X(IntelMKL_dgemm) X(IntelMKL_sgemm) X(IntelMKL_dcsrmm) X(IntelMKL_scsrmm) \
 X(IntelMKL_dcsrmultcsr) X(IntelMKL_scsrmultcsr) X(Eigen_dgemm) X(Eigen_sgemm) X(Eigen_sdgemm) X(Eigen_dsgemm) X(Blaze_dgemm) \
 X(Blaze_sgemm) X(Blaze_sdgemm) X(Blaze_dsgemm) X(Native_GeneralDense) X(Native_sparse) X(Native_sparse_dense) X(Native_dense_sparse) \
 X(Native_matrix_zero) X(Native_zero_matrix) X(Native_zero_zero) X(get_detection_arrays) X(get_block_size)

static void step(Tok const& t) {
    if (t[0] == "kind") plain = t[1] == "plain";
    else if (t[0] == "reg") {
        wanted.push_back({t[1], (int)num(t[2])});
        Ev("reg").str("name", t[1]).i("id", num(t[2])).emit();
    } else if (t[0] == "print") {
        std::string n, out = "ok";
        try { n = plain ? EnumParser<Plain>()((Plain)num(t[1])) : EnumParser<Scripted>()((Scripted)num(t[1])); } catch (std::exception const&) { out = "error"; }
        Ev("print").i("id", num(t[1])).str("name", n).str("out", out).emit();
    } else if (t[0] == "parse") {
        int i = 0; std::string out = "ok", name = t[1] == "\"\"" ? "" : t[1];
        try { i = plain ? (int)EnumParser<Plain>()(name) : (int)EnumParser<Scripted>()(name); } catch (std::exception const&) { out = "error"; }
        Ev("parse").str("name", name).i("id", i).str("out", out).emit();
    } else if (t[0] == "trackerParse") {
        int i = 0; std::string out = "ok", back;
        try { TrackerID v = EnumParser<TrackerID>()(t[1]); i = (int)v; back = EnumParser<TrackerID>()(v); } catch (std::exception const&) { out = "error"; }
        Ev("trackerParse").str("name", t[1]).i("id", i).str("back", back).str("out", out).emit();
    } else if (t[0] == "trackerPrint") {
        std::string n, out = "ok"; int size = (int)TrackerID::size;
        int i = t[1] == "size" ? size : (int)num(t[1]);
        try { n = EnumParser<TrackerID>()((TrackerID)i); } catch (std::exception const&) { out = "error"; }
        Ev("trackerPrint").i("id", i).str("name", n).str("out", out).i("size", size).emit();
    } else if (t[0] == "tracker") {
        EnumParser<TrackerID> p;
#define X(n) { std::string s = p(TrackerID::n); TrackerID b = p(std::string(#n)); \
        Ev("tracker").str("sym", #n).i("value", (int)TrackerID::n).str("name", s).i("back", (int)b).str("again", p(b)).emit(); }
        IDS(X)
#undef X
        for (int i = 0; i != (int)TrackerID::size; ++i) {
            std::string s = p((TrackerID)i);
            Ev("trackerValue").i("value", i).str("name", s).i("back", (int)p(s)).emit();
        }
        Ev("trackerAll").i("size", (int)TrackerID::size).emit();
    } else if (t[0] == "types") name_tables();
    else bad_script(t[0]);
}
int main() { return drive(step, [] { wanted.clear(); plain = false; }); }
