// bounded validation of the drift plane and RFI counts through the public search entry point
#include "common.hpp"
#include <core/coarse_channel.hpp>
#include <core/flag_values.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <bland/bland.hpp>
using namespace hz;

int main(int argc, char **argv) {
    init();
    int n = scale(1500, 9000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int64_t T = rng.pick<int64_t>({2, 3, 4, 7, 8, 16, 17}), F = rng.pick<int64_t>({1, 2, 5, 16, 33, 64, 100});
        bool des = rng.range(0, 2) != 0;
        int64_t step = rng.pick<int64_t>({1, 1, 2, 3, 7});
        int64_t lo = rng.range(-90, 60), hi = lo + step * rng.range(1, 12);
        int wide = rng.range(0, 149); // now and then more channels, or more time steps, than small integer types can count
        if (wide == 0) { T = rng.range(2, 3); F = rng.range(40000, 70000); des = false; lo = rng.range(-69000, 69000); hi = lo + step * rng.range(1, 2); }
        if (wide == 1) { T = rng.range(257, 400); F = rng.range(1, 20); }
        int layout = rng.range(0, 3); // 0 contiguous, 1 sliced in channels, 2 sliced in time, 3 channel step 2
        uint64_t cs = rng.next();
        note_case(cat("T=", T, " F=", F, " low=", lo, " high=", hi, " step=", step, " desmear=", des, " layout=", layout, " contentseed=", cs));
        Rng r(cs);
        int64_t FT = layout == 1 ? F + 5 : layout == 3 ? 2 * F : F, TT = layout == 2 ? T + 3 : T;
        bland::ndarray data({TT, FT}, bland::ndarray::datatype::float32), mask({TT, FT}, bland::ndarray::datatype::uint8);
        std::vector<float> raw(TT * FT);
        std::vector<uint8_t> mraw(TT * FT);
        bool spike = r.coin();
        for (auto &x : raw) x = spike ? (r.range(0, 15) == 0 ? (float)r.range(1, 1000) : 0.0f) : (float)r.range(-100, 100) / 4;
        for (auto &x : mraw) x = r.range(0, 2) == 0 ? (uint8_t)r.range(0, 255) : 0;
        std::copy(raw.begin(), raw.end(), data.data_ptr<float>());
        std::copy(mraw.begin(), mraw.end(), mask.data_ptr<uint8_t>());
        auto D = data, M = mask;
        int64_t o0 = 0, o1 = 0, s1 = 1;
        if (layout == 1) { o1 = 3; D = bland::slice(data, 1, 3, 3 + F, 1); M = bland::slice(mask, 1, 3, 3 + F, 1); }
        if (layout == 2) { o0 = 2; D = bland::slice(data, 0, 2, 2 + T, 1); M = bland::slice(mask, 0, 2, 2 + T, 1); }
        if (layout == 3) { s1 = 2; D = bland::slice(data, 1, 0, 2 * F, 2); M = bland::slice(mask, 1, 0, 2 * F, 2); }
        auto SP = [&](int64_t t, int64_t c) { return (double)raw[(t + o0) * FT + o1 + c * s1]; };
        auto MK = [&](int64_t t, int64_t c) { return mraw[(t + o0) * FT + o1 + c * s1]; };
        guarded("integration", [&] {
            bliss::integrate_drifts_options o{.desmear = des, .low_rate = lo, .high_rate = hi, .rate_step_size = step};
            bliss::coarse_channel cc(D, M, 1000.0, 1e-6, 0, 32, F, T, 1, "x", 0.0, 0.0, 0, 1.0, 0.0, 0, 0.0, 0.0);
            auto plane = bliss::integrate_drifts(cc, o).integrated_drift_plane();
            auto P = plane.integrated_drift_plane();
            auto rfi = plane.integrated_rfi();
            auto tab = plane.drift_rate_info();
            int64_t nd = (hi - lo) / step;
            if (P.ndim() != 2 || P.size(0) != nd || P.size(1) != F) { fail("shape", "drift plane shape"); return; }
            if (plane.integration_steps() != T) fail("steps", cat("integration_steps ", plane.integration_steps()));
            auto p = P.data_ptr<float>();
            const uint8_t *cp[3] = {rfi.filter_rolloff.data_ptr<uint8_t>(), rfi.low_spectral_kurtosis.data_ptr<uint8_t>(), rfi.high_spectral_kurtosis.data_ptr<uint8_t>()};
            const int fl[3] = {bliss::flag_values::filter_rolloff, bliss::flag_values::low_spectral_kurtosis, bliss::flag_values::high_spectral_kurtosis};
            const char *fn[3] = {"rolloff", "lowsk", "highsk"};
            for (int64_t d = 0; d < nd; ++d) {
                double m = tab[d].drift_rate_slope;
                int64_t span = lo + d * step;
                int64_t bins = tab[d].desmeared_bins;
                for (int64_t c = 0; c < F; ++c) {
                    double acc = 0, mag = 0;
                    int64_t cnt[3] = {0, 0, 0};
                    for (int64_t t = 0; t < T; ++t)
                        for (int64_t j = 0; j < bins; ++j) {
                            int64_t off = (int64_t)std::round(m * t), ch = m >= 0 ? c + off + j : c + off - j;
                            bool in = m >= 0 ? ch < F : (c >= -span && ch >= 0);
                            if (!in) continue;
                            acc += SP(t, ch) / bins;
                            mag += std::fabs(SP(t, ch) / bins);
                            for (int k = 0; k < 3; ++k) cnt[k] += (MK(t, ch) & fl[k]) != 0;
                        }
                    if (std::fabs(p[d * F + c] - acc / T) > 1e-4 * (mag / T) + 1e-5) { fail("mean", cat("rate span ", span, " channel ", c, ": ", p[d * F + c], " expected ", acc / T)); }
                    for (int k = 0; k < 3; ++k)
                        if (cnt[k] <= 255 && cp[k][d * F + c] != cnt[k]) fail(cat("count.", fn[k]), cat("rate span ", span, " channel ", c, ": ", (int)cp[k][d * F + c], " expected ", cnt[k]));
                }
            }
            // inputs untouched
            if (memcmp(data.data_ptr<float>(), raw.data(), raw.size() * 4) || memcmp(mask.data_ptr<uint8_t>(), mraw.data(), mraw.size())) fail("inputs", "input changed");
        });
    }
    return finish();
}
