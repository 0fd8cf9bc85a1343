// bounded validation of hit comparison: order laws over a small dense universe of hits
#include "common.hpp"
#include <core/hit.hpp>
#include <algorithm>
#include <list>
using namespace hz;
using bliss::hit;

static hit gen() {
    hit h{};
    auto v = [&] { return rng.range(0, 2); };
    h.start_freq_index = rng.coin() ? 1 : v(); h.start_freq_MHz = rng.coin() ? 1 : v() * 0.5; h.start_time_sec = rng.coin() ? 1 : v();
    h.duration_sec = rng.coin() ? 1 : v(); h.rate_index = rng.coin() ? 1 : v(); h.drift_rate_Hz_per_sec = rng.coin() ? 1 : v() - 1.0;
    h.power = rng.coin() ? 1 : v(); h.time_span_steps = rng.coin() ? 1 : v(); h.snr = rng.coin() ? 1 : v(); h.bandwidth = rng.coin() ? 1 : v();
    h.binwidth = rng.coin() ? 1 : v();
    if (rng.coin()) h.rfi_counts[bliss::flag_values::filter_rolloff] = v();
    if (rng.coin()) h.rfi_counts[bliss::flag_values::low_spectral_kurtosis] = v();
    return h;
}
static std::string show(const hit &h) {
    std::string r = cat("{idx=", h.start_freq_index, " f=", h.start_freq_MHz, " t=", h.start_time_sec, " dur=", h.duration_sec, " ri=", h.rate_index, " dr=", h.drift_rate_Hz_per_sec,
                        " p=", h.power, " ts=", h.time_span_steps, " snr=", h.snr, " bw=", h.bandwidth, " bins=", h.binwidth, " rfi=");
    for (auto &[k, v] : h.rfi_counts) r += cat(k, ":", (int)v, " ");
    return r + "}";
}
static bool same(const hit &a, const hit &b) {
    return a.start_freq_index == b.start_freq_index && a.start_freq_MHz == b.start_freq_MHz && a.start_time_sec == b.start_time_sec && a.duration_sec == b.duration_sec && a.rate_index == b.rate_index && a.drift_rate_Hz_per_sec == b.drift_rate_Hz_per_sec && a.power == b.power && a.time_span_steps == b.time_span_steps && a.snr == b.snr && a.bandwidth == b.bandwidth && a.binwidth == b.binwidth && a.rfi_counts == b.rfi_counts;
}
// mutate one random field of a copy, so that pairs differ in few fields
static hit tweak(hit h) {
    hit g = gen();
    switch (rng.range(0, 11)) {
    case 0: h.start_freq_index = g.start_freq_index; break;
    case 1: h.start_freq_MHz = g.start_freq_MHz; break;
    case 2: h.start_time_sec = g.start_time_sec; break;
    case 3: h.duration_sec = g.duration_sec; break;
    case 4: h.rate_index = g.rate_index; break;
    case 5: h.drift_rate_Hz_per_sec = g.drift_rate_Hz_per_sec; break;
    case 6: h.power = g.power; break;
    case 7: h.time_span_steps = g.time_span_steps; break;
    case 8: h.snr = g.snr; break;
    case 9: h.bandwidth = g.bandwidth; break;
    case 10: h.binwidth = g.binwidth; break;
    default: h.rfi_counts = g.rfi_counts; break;
    }
    if (rng.range(0, 7) == 0) {     // almost equal
        switch (rng.range(0, 7)) {
        case 0: h.start_freq_MHz = std::nextafter(h.start_freq_MHz, 9e9); break;
        case 1: h.start_time_sec = std::nextafter(h.start_time_sec, 9e9); break;
        case 2: h.duration_sec = std::nextafter(h.duration_sec, 9e9); break;
        case 3: h.drift_rate_Hz_per_sec = std::nextafter(h.drift_rate_Hz_per_sec, 9e9); break;
        case 4: h.power = std::nextafter(h.power, 9e9); break;
        case 5: h.snr = std::nextafter(h.snr, 9e9f); break;
        case 6: h.bandwidth = std::nextafter(h.bandwidth, 9e9f); break;
        default: h.start_freq_index += 1 << 24; break;
        }
    }
    return h;
}
int main() {
    init();
    int n = scale(60000, 600000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        hit a = gen(), b = rng.coin() ? tweak(a) : tweak(tweak(a)), c = rng.coin() ? tweak(b) : tweak(tweak(a));
        note_case(cat("a=", show(a), " b=", show(b), " c=", show(c)));
        if (a < a) fail("irreflexive", "a<a");
        if (a < b && b < a) fail("asymmetric", "a<b and b<a");
        if (a < b && b < c && !(a < c)) fail("transitive", "a<b<c but not a<c");
        bool inc = !(a < b) && !(b < a);
        if (inc && !same(a, b)) fail("incomparable", "a and b differ but neither is less");
        if ((a == b) != same(a, b)) fail("equality", cat("a==b is ", a == b, " but fields equal is ", same(a, b)));
        if (!(a == a)) fail("equality", "a==a is false");
        if (a.start_freq_index < b.start_freq_index && !(a < b)) fail("primary", "lower channel index is not less");
    }
    return finish();
}
