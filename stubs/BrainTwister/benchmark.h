// Stand-in for BrainTwister/benchmark: the function is run several times and timed.
#pragma once
#include <chrono>
#include <iomanip>
#include "BrainTwister/Record.h"
namespace BrainTwister {
typedef std::chrono::steady_clock myclock;
struct Benchmark {
    BRAINTWISTER_RECORD( Settings, ((int, min_replications, 2)) ((int, warm_up_runs, 1)) ((int, verbosity, 0)) );
    struct Outcome { myclock::duration average_time; };
    Settings settings;
    explicit Benchmark(Settings const& s = Settings()) : settings(s) {}
    template <class F> Outcome benchIt(F f) const {
        for (int i = 0; i < settings.warm_up_runs; ++i) f();
        auto t = myclock::now(); int n = settings.min_replications > 0 ? settings.min_replications : 1;
        for (int i = 0; i < n; ++i) f();
        return Outcome{(myclock::now() - t) / n};
    }
};
}
