// bounded validation of the drift-rate table through the public search entry point
#include "common.hpp"
#include <core/coarse_channel.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <bland/bland.hpp>
using namespace hz;

static bliss::coarse_channel mk(int64_t T, int64_t F, double foff, double tsamp) {
    bland::ndarray data({T, F}, 0.0f, bland::ndarray::datatype::float32);
    bland::ndarray mask({T, F}, 0, bland::ndarray::datatype::uint8);
    return bliss::coarse_channel(data, mask, 1000.0, foff, 0, 32, F, T, 1, "x", 0.0, 0.0, 0, tsamp, 0.0, 0, 0.0, 0.0);
}

int main() {
    init();
    int n = scale(1500, 9000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int64_t T = rng.pick<int64_t>({2, 3, 4, 5, 8, 16, 17, 33});
        int64_t F = rng.pick<int64_t>({1, 7, 64, 200});
        int64_t step = rng.pick<int64_t>({1, 1, 2, 3, 5});
        int64_t lo = rng.range(-70, 30);
        int64_t hi = lo + rng.range(1, 60) * (rng.coin() ? step : 1) + (step - 1);
        double foff = (rng.coin() ? -1 : 1) * (rng.uniform() + 0.01) * 1e-5, tsamp = 0.1 + 20 * rng.uniform();
        bool des = rng.range(0, 3) != 0;
        // negative spans beyond the band are the subject of the integration property, not of this one
        if (-lo >= F) lo = -(F - 1);
        if (hi < lo + step) hi = lo + step; // at least one rate
        note_case(cat("T=", T, " F=", F, " low=", lo, " high=", hi, " step=", step, " foff=", foff, " tsamp=", tsamp, " desmear=", des));
        guarded("table", [&] {
            bliss::integrate_drifts_options o{.desmear = des, .low_rate = lo, .high_rate = hi, .rate_step_size = step};
            auto cc = mk(T, F, foff, tsamp);
            auto r = bliss::integrate_drifts(cc, o).integrated_drift_plane().drift_rate_info();
            int64_t want = (hi - lo) / step;
            if ((int64_t)r.size() != want) { fail("length", cat("table has ", r.size(), " rates, expected ", want)); return; }
            for (int64_t i = 0; i < want; ++i) {
                int64_t span = lo + i * step;
                double m = (double)span / (T - 1);
                double d = std::round(std::fabs((float)span / (float)(T - 1)));
                int64_t wd = des ? std::max<int64_t>(1, (int64_t)d) : 1;
                if (r[i].index_in_plane != i) fail("index", cat("entry ", i, " index_in_plane ", r[i].index_in_plane));
                if (r[i].drift_channels_span != span) fail("span", cat("entry ", i, " span ", r[i].drift_channels_span, " expected ", span));
                if (!close_to(r[i].drift_rate_slope, m)) fail("slope", cat("entry ", i, " slope ", r[i].drift_rate_slope, " expected ", m));
                if (!close_to(r[i].drift_rate_Hz_per_sec, m * foff * 1e6 / tsamp, 1e-6, 1e-15)) fail("hz", cat("entry ", i, " Hz/s ", r[i].drift_rate_Hz_per_sec, " expected ", m * foff * 1e6 / tsamp));
                if (r[i].desmeared_bins != wd) fail("desmear", cat("entry ", i, " desmeared_bins ", r[i].desmeared_bins, " expected ", wd));
            }
        });
    }
    return finish();
}
