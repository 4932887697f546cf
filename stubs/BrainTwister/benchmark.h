// Stand-in for BrainTwister/benchmark.h (https://github.com/BrainTwister/Benchmark), which is not installed here:
// Benchmark(Settings).benchIt(f) calls f warm_up_runs times, then min_replications times (at least once), and returns
// the average time. The time is a made-up one which depends on nothing else but the number of calls so far, so
// that the output of a program can be compared.
#pragma once

#include "BrainTwister/Record.h"
#include <chrono>
#include <cstdint>
#include <iomanip>
#include <iostream>

namespace BrainTwister {

typedef std::chrono::steady_clock myclock;

class Benchmark
{
public:

    BRAINTWISTER_RECORD( Settings, \
        (( uint32_t, min_replications, 10 )) \
        (( uint32_t, max_replications, 1000 )) \
        (( uint32_t, warm_up_runs, 1 )) \
        (( uint32_t, verbosity, 0 )) \
    );

    struct Result
    {
        uint32_t replications;
        myclock::duration average_time;
    };

    explicit Benchmark(Settings const& settings = Settings{}) : settings(settings) {}

    template <class F>
    Result benchIt(F f) const
    {
        uint32_t n = settings.min_replications > 0 ? settings.min_replications : 1;
        for (uint32_t i = 0; i < settings.warm_up_runs + n; ++i) f();
        return {n, std::chrono::duration_cast<myclock::duration>(std::chrono::nanoseconds(1234567891LL * ++calls()))};
    }

    static int64_t& calls() { static int64_t n = 0; return n; }

private:

    Settings settings;
};

} // namespace BrainTwister
