// bounded validation of hit filtering
#include "common.hpp"
#include <drift_search/filter_hits.hpp>
using namespace hz;
using bliss::hit;
static int cnt(const hit &h, bliss::flag_values f) { auto i = h.rfi_counts.find(f); return i == h.rfi_counts.end() ? 0 : i->second; }
int main() {
    init();
    int n = scale(4000, 60000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        std::list<hit> in;
        int len = rng.range(0, 7);
        std::string d;
        for (int i = 0; i < len; ++i) {
            hit h{};
            h.start_freq_index = i; h.start_freq_MHz = 1000 + i; h.start_time_sec = 5; h.duration_sec = 7; h.rate_index = rng.range(0, 9); h.power = i * 2; h.time_span_steps = 3; h.snr = 10 + i; h.bandwidth = i; h.binwidth = i; h.coarse_channel_number = i;
            h.drift_rate_Hz_per_sec = rng.pick<double>({0, -0.0, 1e-7, -1e-7, 9.99e-7, -9.99e-7, 1.01e-6, -1.01e-6, 0.3, -0.3, 4, -4, 1e-6, -1e-6, std::nextafter(1e-6, 0), -std::nextafter(1e-6, 0)});
            if (rng.range(0, 2) == 0) h.rfi_counts[bliss::flag_values::filter_rolloff] = rng.pick<int>({0, 1, 255});
            if (rng.range(0, 2) == 0) h.rfi_counts[bliss::flag_values::low_spectral_kurtosis] = rng.pick<int>({0, 0, 1, 200});
            if (rng.range(0, 1) == 0) h.rfi_counts[bliss::flag_values::high_spectral_kurtosis] = rng.pick<int>({0, 1, 200});
            for (int f = 0; f < 8; ++f) { auto v = (bliss::flag_values)(1 << f); if (v != bliss::flag_values::filter_rolloff && v != bliss::flag_values::low_spectral_kurtosis && v != bliss::flag_values::high_spectral_kurtosis && rng.range(0, 3) == 0) h.rfi_counts[v] = rng.pick<int>({0, 1, 200}); }
            d += cat("(drift=", h.drift_rate_Hz_per_sec, " ro=", cnt(h, bliss::flag_values::filter_rolloff), " lo=", cnt(h, bliss::flag_values::low_spectral_kurtosis), " hi=", cnt(h, bliss::flag_values::high_spectral_kurtosis), ")");
            in.push_back(h);
        }
        bool zero = rng.coin();
        note_case(cat("filter_zero_drift=", zero, " hits=", d));
        guarded("filter", [&] {
            auto out = bliss::filter_hits(in, bliss::filter_options{.filter_zero_drift = zero});
            std::vector<int> want, got;
            for (auto &h : in)
                if (!(cnt(h, bliss::flag_values::filter_rolloff) > 0 || cnt(h, bliss::flag_values::low_spectral_kurtosis) > 0 || (zero && std::fabs(h.drift_rate_Hz_per_sec) < 1e-6))) want.push_back(h.start_freq_index);
            for (auto &h : out) got.push_back(h.start_freq_index);
            if (want != got) { fail("selection", cat("kept hits ", str(got), " expected ", str(want))); return; }
            auto a = in.begin();
            for (auto &h : out) {
                while (a->start_freq_index != h.start_freq_index) ++a;
                bool ok = h.start_freq_MHz == a->start_freq_MHz && h.start_time_sec == a->start_time_sec && h.duration_sec == a->duration_sec && h.rate_index == a->rate_index && h.power == a->power && h.time_span_steps == a->time_span_steps && h.snr == a->snr && h.bandwidth == a->bandwidth && h.binwidth == a->binwidth && h.drift_rate_Hz_per_sec == a->drift_rate_Hz_per_sec && h.coarse_channel_number == a->coarse_channel_number;
                for (int f = 0; f < 8; ++f) ok = ok && cnt(h, (bliss::flag_values)(1 << f)) == cnt(*a, (bliss::flag_values)(1 << f));
                if (!ok) fail("unchanged", cat("hit ", h.start_freq_index, " was altered"));
            }
        });
    }
    // the channel-level entry point replaces the channel's hits by the filtered ones and rejects a channel without hits
    auto mk = [] { return bliss::coarse_channel(bland::ndarray({4, 8}, 0.0f, bland::ndarray::datatype::float32), bland::ndarray({4, 8}, 0, bland::ndarray::datatype::uint8), 1000.0, 1e-6, 0, 32, 8, 4, 1, "x", 0.0, 0.0, 0, 1.0, 0.0, 0, 0.0, 0.0); };
    for (int it = 0; it < 200; ++it) {
        std::list<hit> in;
        int len = rng.range(0, 4), want = 0;
        bool zero = rng.coin();
        for (int i = 0; i < len; ++i) { hit h{}; h.drift_rate_Hz_per_sec = rng.coin() ? 0 : 1; in.push_back(h); want += !(zero && h.drift_rate_Hz_per_sec == 0); }
        note_case(cat("channel with ", len, " hits, zero=", zero));
        guarded("channel", [&] {
            auto cc = mk();
            cc.set_hits(in);
            auto o = bliss::filter_hits(cc, bliss::filter_options{.filter_zero_drift = zero});
            if ((int)o.hits().size() != want) fail("channel", cat("kept ", o.hits().size(), " expected ", want));
        });
    }
    note_case("channel without hits");
    if (!throws([&] { bliss::filter_hits(mk(), bliss::filter_options{}); })) fail("nohits", "a channel without hits is not rejected");
    return finish();
}
