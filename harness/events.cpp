// bounded validation of the event search: reference implementation of the stated search over small cadences
#include "common.hpp"
#include <core/cadence.hpp>
#include <core/event.hpp>
#include <drift_search/event_search.hpp>
using namespace hz;
using bliss::hit;
using bliss::coarse_channel;
using bliss::scan;
using bliss::event;

struct Sc { double tstart, tsamp; int64_t nt; std::vector<std::vector<hit>> ch; };
static std::vector<hit> all(const Sc &s) { std::vector<hit> r; for (auto &c : s.ch) r.insert(r.end(), c.begin(), c.end()); return r; }
static scan mk_scan(const Sc &s) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    for (size_t i = 0; i < s.ch.size(); ++i) {
        auto cc = std::make_shared<coarse_channel>(1000.0 + i, 1e-6, 0, 32, 1 << 20, s.nt, 1, "x", 0.0, 0.0, 0, s.tsamp, s.tstart, 1, 0.0, 0.0, i);
        cc->set_hits(std::list<hit>(s.ch[i].begin(), s.ch[i].end()));
        m.insert({(int)i, cc});
    }
    return scan(m);
}
static double distance(const hit &a, const hit &b) {
    double dd = std::fabs(a.drift_rate_Hz_per_sec - b.drift_rate_Hz_per_sec) / (1e-8f + a.drift_rate_Hz_per_sec * a.drift_rate_Hz_per_sec + b.drift_rate_Hz_per_sec * b.drift_rate_Hz_per_sec);
    double mid = (std::min(a.start_time_sec, b.start_time_sec) + std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec)) / 2;
    double fa = a.start_freq_MHz * 1e6 + a.drift_rate_Hz_per_sec * (mid - a.start_time_sec), fb = b.start_freq_MHz * 1e6 + b.drift_rate_Hz_per_sec * (mid - b.start_time_sec);
    return (double)0.01f * std::fabs(fa - fb) + 10 * dd * dd;
}
static bool same(const hit &a, const hit &b) { return a == b && a.coarse_channel_number == b.coarse_channel_number; }
static std::string show(const hit &h) { return cat("(f=", h.start_freq_MHz * 1e6 - 1e9, " t=", h.start_time_sec, " dur=", h.duration_sec, " drift=", h.drift_rate_Hz_per_sec, " p=", h.power, ")"); }

int main() {
    init();
    if (part("search")) for (int it = 0; it < scale(4000, 60000) && !out_of_time(); ++it) {
        // targets: the first is the on target
        std::vector<std::vector<Sc>> cad;
        int nt = rng.range(1, 3);
        double t0 = 55000 + rng.range(0, 3);
        double drift0 = rng.pick<double>({0, 0.5, -1, 2, 0.01});
        std::string desc;
        int slot = 0;
        bool shorter = rng.range(0, 4) == 0;
        bool uneven = rng.range(0, 2) == 0;
        for (int t = 0; t < nt; ++t) cad.emplace_back();
        int ns = rng.range(1, 4);
        double scatter = rng.pick<double>({10, 1000, 5000, 20000});
        for (int i = 0; i < ns; ++i) for (int t = 0; t < nt; ++t) {
            if (t > 0 && rng.range(0, 3) == 0) continue;
            Sc s;
            s.nt = uneven ? rng.range(2, 60) : 16; s.tsamp = 10;
            double start = slot++ * 400.0;
            s.tstart = t0 + start / 86400;
            int nch = rng.range(1, 2);
            for (int c = 0; c < nch; ++c) {
                std::vector<hit> hs;
                int k = rng.range(0, 3);
                if (t > 0 && rng.range(0, 2)) k = 0;
                for (int j = 0; j < k; ++j) {
                    hit h{};
                    h.coarse_channel_number = c;
                    h.start_freq_index = rng.range(0, 100000); h.rate_index = rng.range(0, 50); h.time_span_steps = 16; h.binwidth = 1; h.bandwidth = 2.5f * rng.range(1, 5); h.power = rng.range(1, 1000); h.snr = rng.range(10, 99);
                    h.drift_rate_Hz_per_sec = drift0 + (rng.coin() ? 0 : (rng.uniform() - 0.5) * rng.pick<double>({0.01, 0.5, 3}));
                    h.duration_sec = (uneven ? s.nt * s.tsamp : 160) * (shorter ? rng.pick<double>({0.25, 0.5, 1}) : 1);
                    h.start_time_sec = s.tstart * 86400;
                    h.start_freq_MHz = (1e9 + drift0 * start + (rng.uniform() - 0.5) * scatter) * 1e-6;
                    hs.push_back(h);
                    if (rng.range(0, 15) == 0) hs.push_back(h);
                }
                s.ch.push_back(hs);
            }
            desc += cat("[", t, ":");
            for (auto &h : all(s)) desc += show(h);
            desc += "]";
            cad[t].push_back(s);
        }
        // the stated search
        bool close = false;
        auto near = [&](double a, double b) { if (std::fabs(a - b) < 1e-3 * (1 + std::fabs(b))) close = true; };
        std::vector<std::vector<hit>> left;
        std::vector<event> want;
        for (auto &s : cad[0]) left.push_back(all(s));
        for (size_t i = 0; i < left.size(); ++i) for (size_t a = 0; a < left[i].size(); ++a) {
            event e;
            e.hits = {left[i][a]};
            for (size_t j = i + 1; j < left.size(); ++j) {
                int best = -1; double bd = 1e300;
                for (size_t b = 0; b < left[j].size(); ++b) {
                    double d = 1e300;
                    for (auto &h : e.hits) d = std::min(d, distance(h, left[j][b]));
                    if (best >= 0 && !same(left[j][b], left[j][best])) near(d, bd);
                    if (d < bd) { bd = d; best = b; }
                }
                if (best >= 0) near(bd, 50);
                if (best >= 0 && bd < 50) { e.hits.push_back(left[j][best]); left[j].erase(left[j].begin() + best); }
            }
            bool off = false;
            for (size_t t = 1; t < cad.size(); ++t) for (auto &s : cad[t]) for (auto &o : all(s)) {
                double sum = 0;
                for (auto &h : e.hits) sum += distance(o, h);
                near(sum / e.hits.size(), 50);
                off |= sum / e.hits.size() < 50;
            }
            if (e.hits.size() < 2 || off) continue;
            double n = e.hits.size(), p = 0, sn = 0, dr = 0, bw = 0;
            for (auto &h : e.hits) { p += h.power; sn += h.snr; dr += h.drift_rate_Hz_per_sec; bw += h.bandwidth; }
            e.average_power = p / n; e.average_snr = sn / n; e.average_drift_rate_Hz_per_sec = dr / n; e.average_bandwidth = bw / n;
            put(e.starting_frequency_Hz, e.hits.front().start_freq_MHz * 1e6, "events.holds", "starting_frequency_Hz");
            put(e.event_start_seconds, cad[0][i].tstart * 86400, "events.holds", "event_start_seconds"); put(e.event_end_seconds, cad[0][i].tstart * 86400 + cad[0][i].nt * cad[0][i].tsamp, "events.holds", "event_end_seconds");
            want.push_back(e);
        }
        if (close) continue;
        note_case(desc);
        guarded("events", [&] {
            std::vector<bliss::observation_target> ts;
            for (auto &t : cad) { std::vector<scan> ss; for (auto &s : t) ss.push_back(mk_scan(s)); ts.push_back(bliss::observation_target(ss)); }
            auto got = bliss::event_search(bliss::cadence(ts));
            if (got.size() != want.size()) { fail("events.count", cat(got.size(), " events, expected ", want.size())); return; }
            for (size_t i = 0; i < want.size(); ++i) {
                auto &w = want[i]; auto &g = got[i];
                if (g.hits.size() != w.hits.size()) { fail("events.size", cat("event ", i, " has ", g.hits.size(), " hits, expected ", w.hits.size())); continue; }
                auto b = g.hits.begin();
                for (auto &h : w.hits) { if (!same(h, *b)) fail("events.hits", cat("event ", i, " has ") + show(*b) + " expected " + show(h)); ++b; }
                auto ck = [&](const char *nm, double a, double x, double abs_ = 1e-4) { if (!close_to(a, x, 1e-5, abs_)) fail(cat("events.", nm), cat("event ", i, " ", nm, " ", a, " expected ", x)); };
                ck("power", g.average_power, w.average_power); ck("snr", g.average_snr, w.average_snr); ck("drift", g.average_drift_rate_Hz_per_sec, w.average_drift_rate_Hz_per_sec); ck("bandwidth", g.average_bandwidth, w.average_bandwidth);
                if (std::fabs(g.starting_frequency_Hz - w.starting_frequency_Hz) > 1e-3) fail("events.frequency", cat("event ", i, " starts at ", g.starting_frequency_Hz, " Hz"));
                if (std::fabs(g.event_start_seconds - w.event_start_seconds) > 1e-3) fail("events.start", cat("event ", i, " starts at ", g.event_start_seconds));
                if (std::fabs(g.event_end_seconds - w.event_end_seconds) > 1e-3) fail("events.end", cat("event ", i, " ends at ", g.event_end_seconds, " expected ", w.event_end_seconds));
            }
        });
    }
    finish();
}
