// bounded validation of the hit search: planes with known contents through find_*, protohit_search and hit_search
#include "common.hpp"
#include <core/coarse_channel.hpp>
#include <core/flag_values.hpp>
#include <drift_search/connected_components.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/local_maxima.hpp>
#include <drift_search/protohit_search.hpp>
#include <bland/bland.hpp>
#include <queue>
using namespace hz;
using bland::ndarray;

struct Plane {
    int64_t D, F, T, L;
    float nf, np, thr;
    std::vector<float> v;
    std::vector<uint8_t> c[3];
    std::vector<int> bins;
    ndarray plane, cnt[3];
    std::vector<double> noise;
    bool exact = false; // every signal-to-noise ratio is exactly representable
    double snr(int64_t d, int64_t f) const { return ((double)v[d * F + f] - nf) / noise[d]; }
};
static const bliss::flag_values FL[3] = {bliss::flag_values::filter_rolloff, bliss::flag_values::low_spectral_kurtosis, bliss::flag_values::high_spectral_kurtosis};

static bool ambiguous(const Plane &P) {
    if (P.exact) return false;
    for (int64_t i = 0; i < P.D * P.F; ++i) {
        double s = P.snr(i / P.F, i % P.F);
        for (double t : {(double)P.thr, P.thr / 2.0}) if (std::fabs(s - t) < 1e-4 * (1 + std::fabs(t))) return true;
    }
    return false;
}
static bool near_l1(int64_t a, int64_t b, int64_t c, int64_t d, int64_t L) { return std::llabs(a - c) + std::llabs(b - d) <= L; }
static bool differs(double a, double b) { return !close_to(a, b, 2e-5, 1e-6); }

static void check_fields(const Plane &P, const bliss::protohit &h, const std::string &k) {
    int64_t d = h.index_max.drift_index, f = h.index_max.frequency_channel;
    if (d < 0 || d >= P.D || f < 0 || f >= P.F) { fail(k + "index", "peak outside plane"); return; }
    if (h.max_integration != P.v[d * P.F + f]) fail(k + "power", cat("peak (", d, ",", f, ") power ", h.max_integration, " cell has ", P.v[d * P.F + f]));
    if (differs(h.snr, P.snr(d, f))) fail(k + "snr", cat("peak (", d, ",", f, ") snr ", h.snr, " expected ", P.snr(d, f)));
    if (differs(h.desmeared_noise, P.noise[d])) fail(k + "noise", cat("peak row ", d, " noise ", h.desmeared_noise, " expected ", P.noise[d]));
    for (int q = 0; q < 3; ++q) {
        auto it = h.rfi_counts.find(FL[q]);
        int got = it == h.rfi_counts.end() ? 0 : it->second;
        if (got != P.c[q][d * P.F + f]) fail(k + "counts", cat("peak (", d, ",", f, ") flag ", (int)FL[q], " count ", got, " cell has ", (int)P.c[q][d * P.F + f]));
    }
}

static void check_components(const Plane &P, const std::vector<bliss::protohit> &got) {
    // reference: flood fill over cells above thr/2, keep regions with a cell above thr
    std::vector<int> owner(P.D * P.F, -1);
    std::vector<std::vector<int64_t>> regions;
    for (int64_t s = 0; s < P.D * P.F; ++s) {
        if (owner[s] >= 0 || !(P.snr(s / P.F, s % P.F) > P.thr / 2)) continue;
        int id = regions.size();
        regions.push_back({});
        std::queue<int64_t> q;
        q.push(s); owner[s] = id;
        while (!q.empty()) {
            int64_t x = q.front(); q.pop();
            regions[id].push_back(x);
            for (int64_t dd = -P.L; dd <= P.L; ++dd) for (int64_t df = -P.L + std::llabs(dd); df <= P.L - std::llabs(dd); ++df) {
                int64_t a = x / P.F + dd, b = x % P.F + df;
                if (a < 0 || b < 0 || a >= P.D || b >= P.F || owner[a * P.F + b] >= 0 || !(P.snr(a, b) > P.thr / 2)) continue;
                owner[a * P.F + b] = id; q.push(a * P.F + b);
            }
        }
    }
    std::map<int, int> hits; // region -> number of hits
    for (auto &h : got) {
        check_fields(P, h, "cc.");
        int64_t d = h.index_max.drift_index, f = h.index_max.frequency_channel;
        if (d < 0 || d >= P.D || f < 0 || f >= P.F) continue;
        int id = owner[d * P.F + f];
        if (id < 0) { fail("cc.region", cat("peak (", d, ",", f, ") is below threshold")); continue; }
        if (++hits[id] > 1) fail("cc.region", cat("two hits in the region of (", d, ",", f, ")"));
        std::set<int64_t> want(regions[id].begin(), regions[id].end()), have;
        for (auto &l : h.locations) if (!have.insert(l.drift_index * P.F + l.frequency_channel).second) fail("cc.region", "location listed twice");
        if (want != have) fail("cc.region", cat("region of (", d, ",", f, ") has ", want.size(), " cells, hit lists ", have.size()));
        int64_t lo = f, up = f;
        for (auto x : regions[id]) {
            if (P.snr(x / P.F, x % P.F) > P.snr(d, f) * (1 + 1e-5)) fail("cc.peak", cat("cell (", x / P.F, ",", x % P.F, ") of the region is stronger than the reported peak (", d, ",", f, ")"));
            if (x / P.F == d) { lo = std::min(lo, x % P.F); up = std::max(up, x % P.F); }
        }
        if (h.binwidth != up - lo) fail("cc.width", cat("binwidth ", h.binwidth, " expected ", up - lo));
        if (h.index_center.frequency_channel != (up + lo) / 2 || h.index_center.drift_index != d) fail("cc.center", cat("center ", h.index_center.frequency_channel, " expected ", (up + lo) / 2));
    }
    for (size_t r = 0; r < regions.size(); ++r) {
        bool above = false;
        for (auto x : regions[r]) above |= P.snr(x / P.F, x % P.F) > P.thr;
        if (above != (hits.count(r) > 0)) fail("cc.region", cat("region at (", regions[r][0] / P.F, ",", regions[r][0] % P.F, ") above threshold: ", above, ", hits: ", hits.count(r)));
    }
}

static void check_maxima(const Plane &P, const std::vector<bliss::protohit> &got) {
    std::set<int64_t> want, have, near;
    for (int64_t d = 0; d < P.D; ++d) for (int64_t f = 0; f < P.F; ++f) {
        if (!(P.snr(d, f) > P.thr)) continue;
        bool ok = true, tie = false;
        for (int64_t dd = -P.L; dd <= P.L; ++dd) for (int64_t df = -P.L + std::llabs(dd); df <= P.L - std::llabs(dd); ++df) {
            if (!dd && !df) continue;
            int64_t a = d + dd, b = f + df;
            if (a < 0 || b < 0 || a >= P.D || b >= P.F) { ok = false; continue; }
            double diff = P.snr(d, f) - P.snr(a, b);
            if (std::fabs(diff) < 1e-5 * (1 + std::fabs(P.snr(d, f))) && !(a == d && P.v[a * P.F + b] == P.v[d * P.F + f])) tie = true;
            if (!(diff > 0)) ok = false;
        }
        if (tie) near.insert(d * P.F + f);
        if (ok) want.insert(d * P.F + f);
    }
    for (auto &h : got) {
        check_fields(P, h, "lm.");
        int64_t d = h.index_max.drift_index, f = h.index_max.frequency_channel, x = d * P.F + f;
        if (!have.insert(x).second) fail("lm.set", cat("cell (", d, ",", f, ") reported twice"));
        if (!want.count(x) && !near.count(x)) fail("lm.set", cat("cell (", d, ",", f, ") reported but is no local maximum above threshold"));
        if (h.index_center.drift_index != d) fail("lm.center", "center not on the peak's rate");
        // extent: strictly decreasing, above-threshold run on both sides; edges are the first cell failing it
        int64_t lo = f, up = f;
        bool amb = false;
        auto run = [&](int64_t &e, int dir) {
            double edge = P.v[d * P.F + f];
            for (;;) {
                e += dir;
                if (e < 0 || e >= P.F) return;
                if (P.snr(d, e) > P.thr && P.v[d * P.F + e] < edge) { edge = P.v[d * P.F + e]; continue; }
                return;
            }
        };
        run(lo, -1); run(up, 1);
        if (!amb && h.binwidth != up - lo) fail("lm.width", cat("binwidth ", h.binwidth, " expected ", up - lo));
        if (!amb && h.index_center.frequency_channel != (up + lo) / 2) fail("lm.center", cat("center ", h.index_center.frequency_channel, " expected ", (up + lo) / 2));
    }
    for (auto x : want) if (!have.count(x) && !near.count(x)) fail("lm.set", cat("local maximum (", x / P.F, ",", x % P.F, ") not reported"));
}

static void mask_components() {
    bool wide = rng.range(0, 9) == 0; // offsets of hundreds of channels or drifts
    int64_t D = rng.range(1, 7), F = rng.range(1, 12);
    if (wide) { D = rng.range(1, 3); F = rng.range(130, 700); if (rng.range(0, 3) == 0) std::swap(D, F); }
    int dens = rng.range(1, 4);
    if (rng.range(0, 299) == 0) { wide = true; D = rng.range(1, 2); F = rng.range(33000, 70000); dens = 20; if (rng.range(0, 3) == 0) std::swap(D, F); }
    uint64_t cs = rng.next();
    note_case(cat("binary mask ", D, "x", F, " density=1/", dens, " seed=", cs));
    Rng r(cs);
    // the mask may be a view of a larger array: every other row or channel from some position on
    int64_t d0 = r.range(0, 2), f0 = r.range(0, 2), ds = r.range(1, 2), fs = r.range(1, 2);
    int64_t BD = d0 + D * ds + r.range(0, 1), BF = f0 + F * fs + r.range(0, 1);
    ndarray whole(std::vector<int64_t>{BD, BF}, ndarray::datatype::uint8);
    std::vector<uint8_t> all(BD * BF), raw(D * F);
    for (auto &x : all) x = r.range(0, dens) == 0 ? r.pick<int>({1, 1, 2, 127, 128, 255}) : 0;
    for (int64_t i = 0; i < BD; ++i) for (int64_t j = 0; j < BF; ++j) whole.data_ptr<uint8_t>()[i * BF + j] = all[i * BF + j];
    for (int64_t i = 0; i < D; ++i) for (int64_t j = 0; j < F; ++j) raw[i * F + j] = all[(d0 + i * ds) * BF + f0 + j * fs];
    ndarray m = bland::slice(whole, bland::slice_spec{0, d0, d0 + (D - 1) * ds + 1, ds}, bland::slice_spec{1, f0, f0 + (F - 1) * fs + 1, fs});
    std::vector<uint8_t> before(whole.data_ptr<uint8_t>(), whole.data_ptr<uint8_t>() + BD * BF);
    std::vector<bland::nd_coords> nb;
    int kind = wide ? 4 : r.range(0, 5);
    int reach = kind == 3 ? 2 : 1;
    if (kind < 4) { for (int a = -reach; a <= reach; ++a) for (int b = -reach; b <= reach; ++b) if ((a || b || kind == 2) && (kind || !a || !b)) nb.push_back({a, b}); }
    else if (wide) for (int i = r.range(1, 2); i > 0; --i) { int b = r.range(100, 300), a = r.range(-1, 1); if (D > F) std::swap(a, b); nb.push_back({a, b}); nb.push_back({-a, -b}); }
    else if (kind == 4) for (int i = r.range(0, 3); i > 0; --i) { int a = r.range(-3, 3), b = r.range(-13, 13); nb.push_back({a, b}); nb.push_back({-a, -b}); }
    else for (int i = r.range(1, 3); i > 0; --i) nb.push_back({r.range(-2, 2), r.range(-2, 2)}); // one way only: what an earlier group reaches is no longer there for a later one
    std::string off;
    for (auto &o : nb) off += cat(" ", o[0], ",", o[1]);
    note_case(cat("binary mask ", D, "x", F, " density=1/", dens, " seed=", cs, " from ", d0, "/", ds, " ", f0, "/", fs, " offsets:", off));
    guarded("mask", [&] {
        auto got = bliss::find_components_in_binary_mask(m, nb);
        std::vector<int> own(D * F, -1);
        std::vector<std::set<int64_t>> reg;
        for (int64_t s = 0; s < D * F; ++s) {
            if (own[s] >= 0 || !raw[s]) continue;
            std::queue<int64_t> q; q.push(s); own[s] = reg.size(); reg.push_back({});
            while (!q.empty()) {
                auto x = q.front(); q.pop(); reg.back().insert(x);
                for (auto &o : nb) { int64_t a = x / F + o[0], b = x % F + o[1]; if (a >= 0 && b >= 0 && a < D && b < F && raw[a * F + b] && own[a * F + b] < 0) { own[a * F + b] = own[x]; q.push(a * F + b); } }
            }
        }
        if (got.size() != reg.size()) fail("mask.regions", cat(got.size(), " components, expected ", reg.size()));
        std::vector<std::set<int64_t>> A(reg), B;
        for (auto &h : got) { std::set<int64_t> s; if (h.locations.empty()) fail("mask.regions", "group without a cell"); else if (B.size() < reg.size() && h.locations[0].drift_index * F + h.locations[0].frequency_channel != *reg[B.size()].begin() && kind < 5) fail("mask.regions", "a group does not start at its first cell"); for (auto &l : h.locations) if (!s.insert(l.drift_index * F + l.frequency_channel).second) fail("mask.regions", "location twice"); B.push_back(s); }
        if (A != B) fail("mask.regions", "component cells differ");
        if (memcmp(whole.data_ptr<uint8_t>(), before.data(), before.size())) fail("mask.input", "input mask changed");
    });
}

int main() {
    init();
    int n = scale(2500, 12000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        if (it % 5 == 4 && part("mask")) { for (int k = 0; k < 12; ++k) mask_components(); continue; }
        if (!part("cc") && !part("lm") && !part("noise") && !part("hits")) continue;
        Plane P;
        P.D = rng.pick<int64_t>({1, 2, 3, 5, 8, 9, 17}); P.F = rng.pick<int64_t>({1, 2, 5, 9, 16, 31});
        P.T = rng.pick<int64_t>({2, 3, 8, 16, 100, 257}); P.L = rng.pick<int64_t>({1, 1, 2, 2, 3, 7});
        bool big = rng.range(0, 99) == 0; // more channels than small integer types can count, few signals
        if (big) { P.D = rng.range(1, 2); P.F = rng.range(33000, 80000); P.T = 3; }
        uint64_t cs = rng.next();
        Rng r(cs);
        int style = big ? 6 : rng.range(0, 5); // 0 noise, 1 sparse spikes, 2 ridges, 3 plateaus, 4 smooth bump, 5 exact ratios
        P.nf = (float)r.range(-8, 8) / 4; P.np = (float)r.range(1, 16) / 4;
        P.thr = r.pick<float>({0.7f, 1.9f, 3.3f, 10.1f});
        P.exact = style == 5;
        if (P.exact) { P.T = rng.pick<int64_t>({4, 16, 256}); P.nf = (float)r.range(-3, 3); P.np = r.pick<float>({0.5f, 1.0f, 4.0f}); P.thr = r.pick<float>({1.0f, 2.0f, 8.0f}); }
        note_case(cat("drifts=", P.D, " channels=", P.F, " T=", P.T, " L1=", P.L, " style=", style, " floor=", P.nf, " noise=", P.np, " threshold=", P.thr, " contentseed=", cs));
        int64_t N = P.D * P.F;
        P.v.resize(N);
        bool varbins = r.coin();
        for (int64_t d = 0; d < P.D; ++d) { P.bins.push_back(P.exact ? (varbins ? r.pick<int>({1, 4, 16}) : 1) : varbins ? (r.range(0, 9) == 0 ? r.range(7, 400) : r.range(1, 6)) : 1); P.noise.push_back((double)P.np / std::sqrt((double)(P.T * P.bins[d]))); }
        double base = P.np / std::sqrt((double)P.T);
        for (int64_t i = 0; i < N; ++i) {
            double x = 0;
            if (style == 0) x = (r.uniform() - 0.4) * 3 * P.thr;
            if (style == 1) x = r.range(0, 6) == 0 ? (0.3 + r.uniform()) * 2 * P.thr : 0;
            if (style == 2) x = ((i % P.F + i / P.F) % 4 == 0) ? (0.4 + r.uniform() * 1.6) * P.thr : r.uniform() * 0.3 * P.thr;
            if (style == 3) x = P.thr * r.pick<double>({0.1, 0.4, 0.8, 1.2, 1.2, 2.5});
            if (style == 4) { double a = i / P.F - P.D / 2.0, b = i % P.F - P.F / 2.0; x = P.thr * 4 * std::exp(-(a * a + b * b) / 9) + r.uniform() * 0.1; }
            if (style == 5) { x = P.thr * r.pick<double>({0, 0.25, 0.5, 0.5, 0.75, 1, 1, 1.5, 2}); P.v[i] = (float)(P.nf + x * P.noise[i / P.F]); continue; }
            if (style == 6 && r.range(0, 3999) == 0) x = P.thr * r.pick<double>({0.7, 2.5, 4});
            if (style == 6 && i && P.v[i - 1] > P.nf && r.coin()) x = (P.v[i - 1] - P.nf) / base * 0.8;
            P.v[i] = (float)(P.nf + x * base);
        }
        for (auto &c : P.c) { c.resize(N); for (auto &x : c) x = r.range(0, 255); }
        P.plane = ndarray({P.D, P.F}, ndarray::datatype::float32);
        std::copy(P.v.begin(), P.v.end(), P.plane.data_ptr<float>());
        bliss::integrated_flags fl(P.D, P.F);
        for (int q = 0; q < 3; ++q) { P.cnt[q] = ndarray({P.D, P.F}, ndarray::datatype::uint8); std::copy(P.c[q].begin(), P.c[q].end(), P.cnt[q].data_ptr<uint8_t>()); }
        fl.filter_rolloff = P.cnt[0]; fl.low_spectral_kurtosis = P.cnt[1]; fl.high_spectral_kurtosis = P.cnt[2];
        if (ambiguous(P)) continue;
        guarded("search", [&] {
            std::vector<bliss::frequency_drift_plane::drift_rate> tab;
            for (int64_t d = 0; d < P.D; ++d) tab.push_back({.index_in_plane = (int)d, .drift_rate_slope = 0.25 * d, .drift_rate_Hz_per_sec = -1.5 + 0.37 * d, .drift_channels_span = (int)d, .desmeared_bins = P.bins[d]});
            bliss::frequency_drift_plane plane(P.plane, fl, P.T, tab);
            bliss::noise_stats ns;
            ns.set_noise_floor(ndarray({1}, P.nf, ndarray::datatype::float32));
            ns.set_noise_power(ndarray({1}, P.np, ndarray::datatype::float32));
            std::vector<bliss::protohit_drift_info> info;
            for (auto x : P.noise) info.push_back({(float)x});
            for (int m = 0; m < 2; ++m) {
                if (!part("noise") && !part("hits") && !part(m ? "lm" : "cc")) continue;
                bliss::hit_search_options o{.method = m ? bliss::hit_search_methods::LOCAL_MAXIMA : bliss::hit_search_methods::CONNECTED_COMPONENTS, .snr_threshold = P.thr, .neighbor_l1_dist = (int)P.L};
                auto direct = m ? bliss::find_local_maxima_above_threshold(P.plane, fl, P.nf, info, P.thr, (int)P.L) : bliss::find_components_above_threshold(P.plane, fl, P.nf, info, P.thr, (int)P.L);
                if (m && part("lm")) check_maxima(P, direct);
                if (!m && part("cc")) check_components(P, direct);
                if (!part("noise") && !part("hits")) continue;
                auto proto = bliss::protohit_search(plane, ns, o);
                // the wrapper must search with the noise of each rate, the threshold and distance given
                bool eq = proto.size() == direct.size();
                for (size_t i = 0; eq && i < proto.size(); ++i)
                    eq = proto[i].index_max.drift_index == direct[i].index_max.drift_index && proto[i].index_max.frequency_channel == direct[i].index_max.frequency_channel && !differs(proto[i].desmeared_noise, P.noise[proto[i].index_max.drift_index]) && !differs(proto[i].snr, P.snr(proto[i].index_max.drift_index, proto[i].index_max.frequency_channel));
                if (!eq) fail("noise.threshold", cat("search over the plane found ", proto.size(), " protohits, the per-rate noise and threshold give ", direct.size(), " or different values"));
                // whole hits
                double fch1 = 1000 + r.uniform(), foff = (r.coin() ? -1 : 1) * (1e-6 + r.uniform() * 1e-5), tsamp = 0.5 + r.uniform() * 20, tstart = 57000 + r.uniform();
                int64_t ccn = r.range(0, 60);
                bliss::coarse_channel cc(ndarray({P.T, P.F}, ndarray::datatype::float32), ndarray({P.T, P.F}, ndarray::datatype::uint8), fch1, foff, 1, 32, P.F, P.T + (r.coin() ? 5 : 0), 1, "src", 1.0, 2.0, 6, tsamp, tstart, 1, 0.0, 0.0, ccn);
                cc.set_integrated_drift_plane(plane);
                cc.set_noise_estimate(ns);
                auto hits = bliss::hit_search(cc, o);
                if (hits.size() != proto.size()) { fail("hit.count", cat(hits.size(), " hits from ", proto.size(), " protohits")); continue; }
                size_t i = 0;
                for (auto &h : hits) {
                    auto &p = proto[i++];
                    auto bad = [&](const char *f, double got, double want) { fail(cat("hit.", f), cat("hit at rate ", p.index_max.drift_index, " channel ", p.index_max.frequency_channel, " ", f, "=", got, " expected ", want)); };
                    int64_t d = p.index_max.drift_index;
                    if (h.rate_index != d) bad("rate_index", h.rate_index, d);
                    if (h.start_freq_index != p.index_max.frequency_channel) bad("start_freq_index", h.start_freq_index, p.index_max.frequency_channel);
                    double fr = fch1 + foff * p.index_center.frequency_channel;
                    if (std::fabs(h.start_freq_MHz - fr) > 1e-9) bad("start_freq_MHz", h.start_freq_MHz - fch1, fr - fch1);
                    if (!close_to(h.drift_rate_Hz_per_sec, tab[d].drift_rate_Hz_per_sec, 1e-9, 1e-12)) bad("drift_rate", h.drift_rate_Hz_per_sec, tab[d].drift_rate_Hz_per_sec);
                    double pw = (double)p.max_integration - P.nf;
                    if (!close_to(h.power, pw, 1e-4, 1e-5)) bad("power", h.power, pw);
                    if (!close_to(h.snr, pw / p.desmeared_noise, 1e-3, 1e-4)) bad("snr", h.snr, pw / p.desmeared_noise);
                    if (h.binwidth != p.binwidth) bad("binwidth", h.binwidth, p.binwidth);
                    if (!close_to(h.bandwidth, p.binwidth * 1e6 * std::fabs(foff), 1e-4, 1e-4)) bad("bandwidth", h.bandwidth, p.binwidth * 1e6 * std::fabs(foff));
                    if (!close_to(h.start_time_sec, tstart * 86400.0, 1e-12, 1e-5)) bad("start_time", h.start_time_sec, tstart * 86400);
                    if (!close_to(h.duration_sec, tsamp * P.T, 1e-9, 1e-9)) bad("duration", h.duration_sec, tsamp * P.T);
                    if (h.time_span_steps != P.T) bad("time_span_steps", h.time_span_steps, P.T);
                    if (h.coarse_channel_number != ccn) bad("coarse_channel_number", h.coarse_channel_number, ccn);
                    if (h.rfi_counts != p.rfi_counts) bad("rfi_counts", 0, 0);
                }
            }
            if (memcmp(P.plane.data_ptr<float>(), P.v.data(), N * 4)) fail("search.inputs", "drift plane changed");
        });
    }
    return finish();
}
