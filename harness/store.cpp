// bounded validation of what channels, scans, targets, cadences and hits hold: random sequences of sets, gets and copies against a model
#include "common.hpp"
#include <bland/bland.hpp>
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/hit.hpp>
#include <core/scan.hpp>
#include <optional>
using namespace hz;
using bliss::coarse_channel;
using bliss::hit;
using bliss::observation_target;
using bliss::scan;
using dev = bland::ndarray::dev;

static bland::ndarray filled(float x, bool mask = false) { return mask ? bland::ndarray({2, 3}, (uint8_t)x, bland::ndarray::datatype::uint8, dev::cpu) : bland::ndarray({2, 3}, x, bland::ndarray::datatype::float32, dev::cpu); }
static double value(bland::ndarray a, bool mask = false) {
    if (a.ndim() != 2 || a.size(0) != 2 || a.size(1) != 3) return -999;
    double v = mask ? (double)a.data_ptr<uint8_t>()[0] : a.data_ptr<float>()[0];
    for (int i = 1; i < 6; ++i) if ((mask ? (double)a.data_ptr<uint8_t>()[i] : a.data_ptr<float>()[i]) != v) return -998;
    return v;
}
template <class F> static std::string outcome(F &&f) {
    try { f(); return "ok"; }
    catch (const std::bad_optional_access &) { return "bad optional access"; }
    catch (const std::logic_error &) { return "logic error"; }
    catch (const std::runtime_error &) { return "runtime error"; }
    catch (...) { return "other exception"; }
}
struct Head {
    double fch1, foff; std::optional<int64_t> machine, nbits; int64_t nch, nt, nifs; std::string name; std::optional<double> dej, raj; std::optional<int64_t> tel; double tsamp, tstart; int64_t dtype; std::optional<double> az, za; int64_t number;
};
static Head mk_head(bool all) {
    Head h;
    auto i = [&] { return rng.range(1, 1000000000000LL); };
    auto d = [&] { return (rng.uniform() - 0.5) * 20000 + 1e-9 * rng.range(1, 999); };
    auto have = [&] { return all || rng.range(0, 2) != 0; };
    h.fch1 = d(); h.foff = d(); h.nch = i(); h.nt = i(); h.nifs = i(); h.name = rng.pick<std::string>({"", "VOYAGER1", "HIP 4436", cat("s", i())}); h.tsamp = d(); h.tstart = d(); h.dtype = i(); h.number = rng.range(0, 5000);
    if (have()) h.machine = i();
    if (have()) h.nbits = i();
    if (have()) h.dej = d();
    if (have()) h.raj = d();
    if (have()) h.tel = i();
    if (have()) h.az = d();
    if (have()) h.za = d();
    return h;
}
static std::string show(const Head &h) {
    auto o = [](auto &x) { return x ? cat(*x) : std::string("-"); };
    return cat("{fch1=", h.fch1, " foff=", h.foff, " machine=", o(h.machine), " nbits=", o(h.nbits), " nch=", h.nch, " nt=", h.nt, " nifs=", h.nifs, " name=", h.name, " dej=", o(h.dej), " raj=", o(h.raj), " tel=", o(h.tel), " tsamp=", h.tsamp, " tstart=", h.tstart, " dtype=", h.dtype, " az=", o(h.az), " za=", o(h.za), " number=", h.number, "}");
}
template <class X> static void check_head(const std::string &key, const Head &h, X &x, bool channel, bool nbits_optional) {
    auto eq = [&](const char *n, auto got, auto want) { if (!(got == want)) fail(key + "." + n, cat(n, " is ", got, " expected ", want)); };
    auto opt = [&](const char *n, auto &&get, auto &want) {
        if (want) { decltype(get()) v{}; auto r = outcome([&] { v = get(); }); if (r != "ok") fail(key + "." + n, cat(n, ": ", r)); else eq(n, v, *want); }
        else { auto r = outcome([&] { get(); }); if (r != "bad optional access") fail(key + ".unstated." + n, cat(n, " was not stated, reading it: ", r)); }
    };
    eq("fch1", x.fch1(), h.fch1); eq("foff", x.foff(), h.foff); eq("nchans", x.nchans(), h.nch); eq("ntsteps", x.ntsteps(), h.nt); eq("nifs", x.nifs(), h.nifs); eq("source_name", x.source_name(), h.name);
    eq("tsamp", x.tsamp(), h.tsamp); eq("tstart", x.tstart(), h.tstart); eq("data_type", x.data_type(), h.dtype);
    opt("machine_id", [&] { return x.machine_id(); }, h.machine); opt("src_dej", [&] { return x.src_dej(); }, h.dej); opt("src_raj", [&] { return x.src_raj(); }, h.raj); opt("telescope_id", [&] { return x.telescope_id(); }, h.tel);
    opt("az_start", [&] { return x.az_start(); }, h.az); opt("za_start", [&] { return x.za_start(); }, h.za);
    if (nbits_optional || h.nbits) opt("nbits", [&] { return x.nbits(); }, h.nbits);
}
static coarse_channel mk_cc(const Head &h, int how, float data, float mask) {
    bool all = h.machine && h.nbits && h.dej && h.raj && h.tel && h.az && h.za;
    std::function<bland::ndarray()> fd = [data] { return filled(data); }, fm = [mask] { return filled(mask, true); };
    if (how == 0 && all) return coarse_channel(h.fch1, h.foff, *h.machine, *h.nbits, h.nch, h.nt, h.nifs, h.name, *h.dej, *h.raj, *h.tel, h.tsamp, h.tstart, h.dtype, *h.az, *h.za, h.number);
    if (how <= 1) return coarse_channel(h.fch1, h.foff, h.machine, h.nbits, h.nch, h.nt, h.nifs, h.name, h.dej, h.raj, h.tel, h.tsamp, h.tstart, h.dtype, h.az, h.za, h.number);
    if (how == 2 && all) return coarse_channel(filled(data), filled(mask, true), h.fch1, h.foff, *h.machine, *h.nbits, h.nch, h.nt, h.nifs, h.name, *h.dej, *h.raj, *h.tel, h.tsamp, h.tstart, h.dtype, *h.az, *h.za, h.number);
    if (how == 3 && all) return coarse_channel(fd, fm, h.fch1, h.foff, *h.machine, *h.nbits, h.nch, h.nt, h.nifs, h.name, *h.dej, *h.raj, *h.tel, h.tsamp, h.tstart, h.dtype, *h.az, *h.za, h.number);
    return coarse_channel(fd, fm, h.fch1, h.foff, h.machine, h.nbits, h.nch, h.nt, h.nifs, h.name, h.dej, h.raj, h.tel, h.tsamp, h.tstart, h.dtype, h.az, h.za, h.number);
}
struct Held {       // what a channel is expected to hold
    Head head;
    float data = 0, mask = 0;
    bool arrays = false;
    std::optional<float> noise, floor;
    int hits = -1;                              // number of hits, -1: none set
    std::shared_ptr<int> runs;                  // how often the computation of the hits ran
    int plane = -1;                             // integration steps of the plane, -1: none set
};
static bland::ndarray one(float x) { return bland::ndarray({1}, x, bland::ndarray::datatype::float32, dev::cpu); }
static bliss::frequency_drift_plane mk_plane(int k) {
    bliss::integrated_flags f(1, 1, dev::cpu);
    std::vector<bliss::frequency_drift_plane::drift_rate> table(k);
    return bliss::frequency_drift_plane(filled((float)k), f, k, table);
}
static void check_channel(coarse_channel &c, Held &m) {
    check_head("channel", m.head, c, true, true);
    if (c._coarse_channel_number != m.head.number) fail("channel.number", cat("coarse channel ", c._coarse_channel_number, " expected ", m.head.number));
    if (m.arrays) {
        if (value(c.data()) != m.data) fail("channel.data", cat("samples are ", value(c.data()), " expected ", m.data));
        if (value(c.mask(), true) != m.mask) fail("channel.mask", cat("mask is ", value(c.mask(), true), " expected ", m.mask));
    }
    if (m.noise) {
        auto r = outcome([&] { auto s = c.noise_estimate(); if (s.noise_power() != *m.noise || s.noise_floor() != *m.floor) fail("channel.noise", cat("noise ", s.noise_power(), " over ", s.noise_floor(), " expected ", *m.noise, " over ", *m.floor)); });
        if (r != "ok") fail("channel.noise", "reading the noise estimate: " + r);
    } else { auto r = outcome([&] { c.noise_estimate(); }); if (r != "logic error") fail("channel.noise.unset", "without a noise estimate: " + r); }
    if (c.has_hits() != (m.hits >= 0)) fail("channel.has_hits", cat("has_hits is ", c.has_hits()));
    if (m.hits < 0) { auto r = outcome([&] { c.hits(); }); if (r != "logic error") fail("channel.hits.unset", "without hits: " + r); }
    else {
        std::list<hit> h;
        auto r = outcome([&] { h = c.hits(); });
        if (r != "ok" || (int)h.size() != m.hits) fail("channel.hits", cat(h.size(), " hits (", r, ") expected ", m.hits));
        if (m.runs && *m.runs > 1) fail("channel.hits.once", cat("the search ran ", *m.runs, " times"));
    }
    if (m.plane < 0) { auto r = outcome([&] { c.integrated_drift_plane(); }); if (r == "ok") fail("channel.plane.unset", "without a plane: " + r); }
    else {
        auto r = outcome([&] {
            auto p = c.integrated_drift_plane();
            if (p.integration_steps() != m.plane || (int)p.drift_rate_info().size() != m.plane || value(p.integrated_drift_plane()) != m.plane) fail("channel.plane", cat("plane of ", p.integration_steps(), " steps, ", p.drift_rate_info().size(), " rates, expected ", m.plane));
        });
        if (r != "ok") fail("channel.plane", "reading the plane: " + r);
    }
    if (!(c.device() == dev::cpu)) fail("channel.device", "the channel left the cpu");
}
static void channels() {
    std::vector<coarse_channel> cs;
    std::vector<Held> ms;
    std::string log;
    int steps = rng.range(1, 14);
    Head h = mk_head(rng.coin());
    int how = rng.range(0, 4);
    float a = rng.range(1, 99), b = rng.range(1, 63);
    cs.push_back(mk_cc(h, how, a, b));
    ms.push_back({h});
    if (how >= 2) { ms[0].data = a; ms[0].mask = b; ms[0].arrays = true; }
    log = cat("channel made from ", how < 2 ? "no samples" : how == 2 ? "arrays" : "computations", " ", show(h), ": ");
    for (int i = 0; i < steps; ++i) {
        int k = rng.range(0, (int)cs.size() - 1);
        float x = rng.range(1, 99);
        auto &c = cs[k];
        auto &m = ms[k];
        switch (rng.range(0, 9)) {
        case 0: log += cat("copy ", k, "; "); cs.push_back(coarse_channel(cs[k])); ms.push_back(Held(ms[k])); break;
        case 1: if (m.arrays) { log += cat(k, ".data=", x, "; "); if (rng.coin()) c.set_data(filled(x)); else c.set_data(bland::ndarray_deferred([x] { return filled(x); })); m.data = x; } break;
        case 2: if (m.arrays) { x = std::min(x, 63.f); log += cat(k, ".mask=", x, "; "); if (rng.coin()) c.set_mask(filled(x, true)); else c.set_mask(bland::ndarray_deferred([x] { return filled(x, true); })); m.mask = x; } break;
        case 3: { log += cat(k, ".noise=", x, "; "); bliss::noise_stats s; s.set_noise_power(one(x)); s.set_noise_floor(one(x / 2)); c.set_noise_estimate(s); m.noise = x; m.floor = x / 2; break; }
        case 4: { int n = rng.range(0, 3); log += cat(k, ".hits=", n, "; "); c.set_hits(std::list<hit>(n)); m.hits = n; m.runs.reset(); break; }
        case 5: { int n = rng.range(0, 3); log += cat(k, ".hits=search of ", n, "; "); m.runs = std::make_shared<int>(0); auto r = m.runs; c.set_hits(std::function<std::list<hit>()>([n, r] { ++*r; return std::list<hit>(n); })); m.hits = n; break; }
        case 6: { int n = rng.range(0, 3); log += cat(k, ".plane=", n, "; "); c.set_integrated_drift_plane(mk_plane(n)); m.plane = n; break; }
        case 7: { int n = rng.range(0, 3); log += cat(k, ".plane=computation of ", n, "; "); c.set_integrated_drift_plane(std::function<bliss::frequency_drift_plane()>([n] { return mk_plane(n); })); m.plane = n; break; }
        case 8: {
            bool bad = rng.coin();
            log += cat(k, bad ? ".device=cuda; " : ".device=cpu; ");
            dev d = bad ? dev("cuda:77") : dev("cpu");
            auto r = outcome([&] { if (rng.coin()) c.set_device(d); else c.set_device(bad ? "cuda:77" : "cpu"); });
            if (r != (bad ? "runtime error" : "ok")) fail("channel.set_device", cat("selecting the ", bad ? "unusable cuda device: " : "cpu: ", r));
            break;
        }
        default: if (m.arrays) { log += cat("push ", k, "; "); c.push_device(); } break;
        }
        if (rng.range(0, 3) == 0) { int j = rng.range(0, (int)cs.size() - 1); log += cat("look at ", j, "; "); note_case(log); guarded("channel", [&] { check_channel(cs[j], ms[j]); }); }
    }
    note_case(log);
    for (size_t j = 0; j < cs.size(); ++j) guarded("channel", [&] { check_channel(cs[j], ms[j]); });
}
static scan mk_scan(Head &h, int n) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    int key = 0;
    bool gaps = rng.range(0, 3) == 0;       // channels may be numbered with gaps
    for (int i = 0; i < n; ++i) {
        Head c = i ? mk_head(true) : h;
        m.insert({key, std::make_shared<coarse_channel>(mk_cc(c, 1, 0, 0))});
        key += gaps ? rng.range(1, 3) : 1;
    }
    return scan(m);
}
static void scans() {
    Head h = mk_head(rng.coin());
    if (!h.nbits) h.nbits = 8;
    h.nch = rng.range(1, 1 << 20); h.nt = rng.range(1, 99999);
    int n = rng.range(1, 3);
    std::string log = cat("scan of ", n, " channels, the first ", show(h), ": ");
    note_case(log);
    guarded("scan", [&] {
        scan s = mk_scan(h, n);
        Head e = h;
        e.nch = h.nch * n;
        check_head("scan", e, s, false, false);
        if (s.get_number_coarse_channels() != n) fail("scan.channels", cat(s.get_number_coarse_channels(), " channels expected ", n));
        double span = h.nt * h.tsamp;
        if (s.tduration_secs() != span) fail("scan.duration", cat("duration ", s.tduration_secs(), " expected ", span));
        scan keep(s);
        Head e0 = e, v = mk_head(true);
        for (int i = rng.range(0, 8); i-- > 0;) switch (rng.range(0, 15)) {
        case 0: s.set_fch1(v.fch1); e.fch1 = v.fch1; break;
        case 1: s.set_foff(v.foff); e.foff = v.foff; break;
        case 2: s.set_machine_id(*v.machine); e.machine = v.machine; break;
        case 3: s.set_nbits(*v.nbits); e.nbits = v.nbits; break;
        case 4: s.set_nchans(v.nch); e.nch = v.nch; break;
        case 5: s.set_nifs(v.nifs); e.nifs = v.nifs; break;
        case 6: s.set_source_name(v.name); e.name = v.name; break;
        case 7: s.set_src_dej(*v.dej); e.dej = v.dej; break;
        case 8: s.set_src_raj(*v.raj); e.raj = v.raj; break;
        case 9: s.set_telescope_id(*v.tel); e.tel = v.tel; break;
        case 10: s.set_tsamp(v.tsamp); e.tsamp = v.tsamp; break;
        case 11: s.set_tstart(v.tstart); e.tstart = v.tstart; break;
        case 12: s.set_data_type(v.dtype); e.dtype = v.dtype; break;
        case 13: s.set_az_start(*v.az); e.az = v.az; break;
        case 14: s.set_za_start(*v.za); e.za = v.za; break;
        default: { auto r = outcome([&] { s.set_device("cpu"); }); if (r != "ok" || !(s.device() == dev::cpu)) fail("scan.set_device", "selecting the cpu: " + r); }
        }
        note_case(log + "set to " + show(e));
        check_head("scan", e, s, false, false);
        if (s.tduration_secs() != span || keep.tduration_secs() != span) fail("scan.duration", cat("duration ", s.tduration_secs(), " expected ", span));
        check_head("scan.copy", e0, keep, false, false);
        auto r = outcome([&] { s.set_device("cuda:77"); });
        if (r != "runtime error") fail("scan.set_device", "selecting an unusable cuda device: " + r);
    });
}
static void targets() {
    struct T { std::vector<std::pair<std::string, int>> scans; };
    std::vector<T> ts(rng.range(0, 3));
    std::string log;
    std::vector<observation_target> obs;
    std::string common = rng.pick<std::string>({"VOYAGER1", "HIP 4436", "TIC 1", "unknown"});
    bool mixed = rng.range(0, 4) == 0;
    int channels = rng.range(1, 4);
    std::vector<std::string> expect;
    guarded("target", [&] {
        for (auto &t : ts) {
            std::vector<scan> v;
            int named = 0;
            log += "target of scans [";
            for (int i = rng.range(0, 4); i-- > 0;) {
                Head h = mk_head(true);
                h.name = rng.range(0, 2) == 0 ? "" : mixed && rng.coin() ? "another" : common;
                named += h.name != "";
                h.fch1 = 1000 + rng.range(0, 99999) / 8.0; h.foff = 0.5; h.nch = 16;
                scan s = mk_scan(h, channels);
                double f = 1e6 * (i + 1) + rng.range(0, 999);
                s.set_tstart(f);
                v.push_back(s);
                t.scans.push_back({h.name, (int)f});
                log += cat("'", h.name, "' ", (int)f, ", ");
            }
            log += "]; ";
            expect.push_back(named ? common : "unknown");
            obs.push_back(observation_target(v));
        }
    });
    note_case(log);
    auto check = [&](const std::string &key, observation_target &o, const T &t, const std::string &name, int first, int count) {
        if (o._scans.size() != t.scans.size()) { fail(key + ".scans", cat(o._scans.size(), " scans expected ", t.scans.size())); return; }
        for (size_t i = 0; i < t.scans.size(); ++i) {
            if (o._scans[i].tstart() != t.scans[i].second || o._scans[i].source_name() != t.scans[i].first) fail(key + ".order", cat("scan ", i, " is another one"));
            if (o._scans[i].get_number_coarse_channels() != count) fail(key + ".channels", cat("scan ", i, " has ", o._scans[i].get_number_coarse_channels(), " channels expected ", count));
            (void)first;
        }
        if (o._target_name != name) fail(key + ".name", cat("target named '", o._target_name, "' expected '", name, "'"));
    };
    guarded("target", [&] {
        for (size_t i = 0; i < ts.size(); ++i) check("target", obs[i], ts[i], mixed ? obs[i]._target_name : expect[i], 0, channels);
        bliss::cadence cad(obs);
        if (cad._observations.size() != ts.size()) { fail("cadence.targets", cat(cad._observations.size(), " targets expected ", ts.size())); return; }
        for (size_t i = 0; i < ts.size(); ++i) check("cadence.target", cad._observations[i], ts[i], obs[i]._target_name, 0, channels);
        bool cpu = rng.coin(), named = rng.coin();
        if (cpu) {
            dev d = dev::cpu;
            if (rng.coin()) for (auto &o : obs) { if (named) o.set_device("cpu", rng.coin()); else o.set_device(d, rng.coin()); }
            else if (named) cad.set_device("cpu"); else cad.set_device(d);
        }
        dev before = cad.device();
        for (auto &o : obs) if (outcome([&] { if (named) o.set_device("cuda:77"); else { dev d("cuda:77"); o.set_device(d); } }) != "runtime error") fail("target.set_device", "an unusable cuda device is not refused");
        if (outcome([&] { if (named) cad.set_device("cuda_managed:77"); else { dev d("cuda_managed:77"); cad.set_device(d); } }) != "runtime error") fail("cadence.set_device", "an unusable cuda device is not refused");
        if (!(cad.device() == before)) fail("cadence.device", "the device changed although it was refused");
        for (auto &o : cad._observations) for (auto &s : o._scans) if (!(s.device() == dev::cpu)) fail("cadence.device", "a scan is not on the cpu");
        // another device, here one that is only a name: every member is told
        dev other = dev::cpu;
        if (rng.coin()) {
            other.device_id = 1;
            if (rng.coin()) cad.set_device(other); else for (auto &o : cad._observations) o.set_device(other);
            for (auto &o : obs) o.set_device(other);
            for (auto *list : {&cad._observations, &obs})
                for (auto &o : *list) {
                    if (!(o.device() == other)) fail("target.set_device", "a target is not on the device selected");
                    for (auto &s : o._scans) if (!(s.device() == other) || !(s.read_coarse_channel(0)->device() == other)) fail("target.set_device", "a scan or channel is not on the device selected");
                }
        }
        int a = rng.range(0, channels - 1), k = rng.range(1, channels - a);
        note_case(log + cat("slice ", a, " ", k));
        for (size_t i = 0; i < ts.size(); ++i) {
            auto sl = obs[i].slice_observation_channels(a, k);
            check("target.slice", sl, ts[i], obs[i]._target_name, a, k);
            if (!(sl.device() == obs[i].device())) fail("target.slice.device", "a slice is on another device than its target");
            for (size_t j = 0; j < sl._scans.size(); ++j) {
                double want = obs[i]._scans[j].fch1() + 0.5 * 16 * a;
                if (sl._scans[j].fch1() != want) fail("target.slice.channels", cat("slice starts at ", sl._scans[j].fch1(), " expected ", want));
            }
            check("target.unchanged", obs[i], ts[i], obs[i]._target_name, 0, channels);
        }
        auto sl = cad.slice_cadence_channels(a, k);
        if (sl._observations.size() != ts.size()) { fail("cadence.slice.targets", cat(sl._observations.size(), " targets expected ", ts.size())); return; }
        for (size_t i = 0; i < ts.size(); ++i) {
            check("cadence.slice", sl._observations[i], ts[i], cad._observations[i]._target_name, a, k);
            if (!(sl._observations[i].device() == cad._observations[i].device())) fail("cadence.slice.device", "a target of a slice is on another device");
        }
        if (!(sl.device() == cad.device())) fail("cadence.slice.device", "a slice is on another device than its cadence");
    });
}
static void states() {
    auto gen = [&] {
        hit h{};
        auto d = [&] { return (rng.uniform() - 0.5) * 20000 + 1e-9 * rng.range(1, 999); };
        put(h.start_freq_index, rng.range(-(1LL << 40), 1LL << 40), "state.holds", "start_freq_index"); put(h.start_freq_MHz, d(), "state.holds", "start_freq_MHz"); put(h.start_time_sec, 4.9e9 + d(), "state.holds", "start_time_sec"); put(h.duration_sec, d(), "state.holds", "duration_sec"); put(h.rate_index, rng.range(-(1LL << 33), 1LL << 33), "state.holds", "rate_index");
        put(h.drift_rate_Hz_per_sec, d(), "state.holds", "drift_rate_Hz_per_sec"); put(h.power, d(), "state.holds", "power"); put(h.time_span_steps, rng.range(-1000000, 1000000), "state.holds", "time_span_steps"); put(h.snr, (float)d(), "state.holds", "snr"); put(h.bandwidth, (float)d(), "state.holds", "bandwidth"); put(h.binwidth, rng.range(0, 1 << 30), "state.holds", "binwidth"); put(h.coarse_channel_number, rng.range(0, 100000), "state.holds", "coarse_channel_number");
        for (int f : {1, 2, 4, 16, 32, 3, 7}) if (rng.range(0, 2) == 0) h.rfi_counts[(bliss::flag_values)f] = rng.range(0, 255);
        return h;
    };
    hit a = gen(), b = rng.coin() ? gen() : hit{};
    note_case(cat("state of a hit at ", a.start_freq_MHz, " MHz, ", a.start_time_sec, " s, index ", a.start_freq_index, ", ", a.rfi_counts.size(), " counts, set on a hit with ", b.rfi_counts.size(), " counts"));
    guarded("state", [&] {
        hit keep = a;
        b.set_state(a.get_state());
        if (!(b == a)) fail("state.equal", cat("the hit that was set differs from the one saved: ", b.repr(), " ", a.repr()));
        auto n = [&](const char *f, auto x, auto y) { if (!(x == y)) fail(cat("state.", f), cat(f, " is ", x, " expected ", y)); };
        n("frequency index", b.start_freq_index, a.start_freq_index); n("frequency", b.start_freq_MHz, a.start_freq_MHz); n("start", b.start_time_sec, a.start_time_sec); n("duration", b.duration_sec, a.duration_sec); n("rate", b.rate_index, a.rate_index);
        n("drift", b.drift_rate_Hz_per_sec, a.drift_rate_Hz_per_sec); n("power", b.power, a.power); n("span", b.time_span_steps, a.time_span_steps); n("snr", b.snr, a.snr); n("bandwidth", b.bandwidth, a.bandwidth); n("binwidth", b.binwidth, a.binwidth);
        n("coarse channel", b.coarse_channel_number, a.coarse_channel_number);
        if (b.rfi_counts != a.rfi_counts) fail("state.counts", "flag counts differ");
        if (!(a == keep) || a.rfi_counts != keep.rfi_counts) fail("state.original", "saving changed the hit");
    });
}
int main() {
    init();
    struct { const char *name; void (*f)(); int n; } P[] = {{"channel", channels, 4000}, {"channel", scans, 2000}, {"target", targets, 2500}, {"state", states, 20000}};
    for (auto &p : P) if (part(p.name)) for (int i = 0, n = scale(p.n, p.n * 15); i < n && !out_of_time(); ++i) p.f();
    finish();
}
