// bounded validation of the flaggers, the noise and spectral kurtosis estimates and the preprocessing of channels
#include "ndview.hpp"
#include <core/cadence.hpp>
#include <core/coarse_channel.hpp>
#include <core/flag_values.hpp>
#include <core/scan.hpp>
#include <estimators/noise_estimate.hpp>
#include <estimators/spectral_kurtosis.hpp>
#include <flaggers/filter_rolloff.hpp>
#include <flaggers/magnitude.hpp>
#include <flaggers/sigmaclip.hpp>
#include <flaggers/spectral_kurtosis.hpp>
#include <preprocess/normalize.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <fstream>
using namespace hz;
using bliss::coarse_channel;
using bliss::scan;

struct Chan {
    int64_t T, F;
    View<float> d;
    View<uint8_t> m;
    double foff, tsamp;
    float at(int64_t t, int64_t f) const { return d.val(t * F + f); }
};
static coarse_channel mk(Chan &c, int number = 0) {
    return coarse_channel(c.d.arr, c.m.arr, 1420.0, c.foff, (int64_t)1, (int64_t)32, c.F, c.T, (int64_t)1, std::string("src"), 1.5, 2.5, (int64_t)6, c.tsamp, 57000.25, (int64_t)1, 0.5, 0.75, (int64_t)number);
}
// mean and population standard deviation of the bins not excluded
static bool stats(const Chan &c, const std::vector<char> &skip, double &mean, double &sd) {
    double s = 0, s2 = 0;
    int64_t n = 0;
    for (int64_t k = 0; k < c.T * c.F; ++k) if (!skip[k]) { double v = c.d.val(k); s += v; s2 += v * v; n++; }
    if (!n) return false;
    mean = s / n;
    sd = std::sqrt(std::max(0.0, s2 / n - mean * mean));
    return true;
}
static Chan mkchan(int64_t T = 0, int64_t F = 0, bool clean = false) {
    Chan c;
    c.T = T ? T : rng.range(2, 7);
    c.F = F ? F : rng.range(1, 24);
    int kind = rng.range(0, 3);
    // kind 3: pairs symmetric about 64 of very different spreads, so clipping moves the deviation but not the mean
    std::vector<float> sym(c.T * c.F, 64.f);
    for (int64_t k = 0; k < c.T * c.F / 2; ++k) {
        float a = rng.pick<float>({1, 1, 1, 2, 2, 3, 5, 9, 16, 33, 60});
        sym[k] += a;
        sym[c.T * c.F - 1 - k] -= a;
    }
    int64_t nth = 0;
    c.d = mkview<float>({c.T, c.F}, [&] { return kind == 3 ? sym[nth++ % sym.size()] : kind == 0 ? (float)rng.range(1, 40) : kind == 1 ? (float)(rng.range(90, 110) + (rng.range(0, 30) == 0 ? 400 : 0)) : (float)(rng.uniform() * 8 + 0.25); }, kind == 3 ? 0 : -1);
    c.m = mkview<uint8_t>({c.T, c.F}, [&] { return clean ? (uint8_t)0 : (uint8_t)(rng.coin() ? 0 : rng.range(0, 255)); });
    c.foff = rng.pick<double>({-2.7939677238464355e-06, 2.7939677238464355e-06, -1e-6, 5e-6});
    c.tsamp = rng.pick<double>({1.0, 18.253611008, 2.5});
    return c;
}
static bool mask_is(bland::ndarray m, const std::vector<uint8_t> &want, int64_t T, int64_t F, const std::string &key, const std::string &what) {
    if (m.shape() != IV{T, F}) { fail(key, what + ": mask of shape " + str(m.shape())); return false; }
    auto dt = m.dtype();
    if (dt.code != kDLUInt || dt.bits != 8) { fail(key, what + ": mask is no longer of bytes"); return false; }
    auto got = elems<uint8_t>(m);
    for (int64_t k = 0; k < T * F; ++k)
        if (got[k] != want[k]) { fail(key, cat(what, ": bin (", k / F, ",", k % F, ") is ", (int)got[k], " expected ", (int)want[k])); return false; }
    return true;
}
static const uint8_t ROLL = 1, LOW = 2, HIGH = 4, MAG = 16, SIG = 32;

// criterion of each flagger: want |= flag; false if the case is too close to call
static void roll_want(const Chan &c, float w, std::vector<uint8_t> &want) {
    int64_t n = std::llround((double)((float)c.F * w));
    for (int64_t k = 0; k < c.T * c.F; ++k) if (k % c.F < n || k % c.F >= c.F - n) want[k] |= ROLL;
}
static double sk_of(const Chan &c, int64_t f, double N, double M, double d) {
    double s1 = 0, s2 = 0;
    for (int64_t t = 0; t < c.T; ++t) { double v = c.at(t, f); s1 += v; s2 += v * v; }
    return (M * N * d + 1) / (M - 1) * (M * s2 / (s1 * s1) - 1);
}
static bool sk_want(const Chan &c, float lo, float hi, float d, std::vector<uint8_t> &want) {
    double N = std::round(c.tsamp * std::fabs(1e6 * c.foff));
    for (int64_t f = 0; f < c.F; ++f) {
        double sk = sk_of(c, f, N, c.T, d), tol = 2e-5 * (c.T * N * d + 1) * 2 + 1e-4 * std::fabs(sk);
        if (std::fabs(sk - lo) < tol || std::fabs(sk - hi) < tol) return false;
        for (int64_t t = 0; t < c.T; ++t) want[t * c.F + f] |= (sk < lo ? LOW : 0) | (sk > hi ? HIGH : 0);
    }
    return true;
}
static bool mag_want(const Chan &c, double thr, std::vector<uint8_t> &want, bool exact = true) {
    for (int64_t k = 0; k < c.T * c.F; ++k) {
        if (!exact && std::fabs(c.d.val(k) - thr) < 1e-3 * (1 + std::fabs(thr))) return false;
        if (c.d.val(k) > (exact ? (float)thr : thr)) want[k] |= MAG;
    }
    return true;
}
static bool sig_want(const Chan &c, int iters, float lo, float hi, std::vector<uint8_t> &want) {
    std::vector<char> skip(c.T * c.F, 0);
    double m, s;
    stats(c, skip, m, s);
    for (int it = 0; it < iters; ++it) {
        for (int64_t k = 0; k < c.T * c.F; ++k) {
            double v = c.d.val(k), a = m - s * lo, b = m + s * hi, tol = 1e-3 * (1 + std::fabs(v));
            if (std::fabs(v - a) < tol || std::fabs(v - b) < tol) return false;
            skip[k] = v < a || v > b;
        }
        double m2, s2;
        if (!stats(c, skip, m2, s2)) return false;
        double dm = std::fabs(m2 - m), ds = std::fabs(s2 - s);
        if ((dm > 1e-9 && dm < 1e-3) || (ds > 1e-9 && ds < 1e-3)) return false; // settled or not: too close to call
        if (dm < 1e-6 && ds < 1e-6) break;
        m = m2; s = s2;
    }
    for (int64_t k = 0; k < c.T * c.F; ++k) if (skip[k]) want[k] |= SIG;
    return true;
}

// one random flagger; fn applies it to a channel, scan, target or cadence
struct Flagger {
    std::string name;
    std::function<coarse_channel(coarse_channel)> on;
    std::function<scan(scan)> on_scan;
    std::function<bliss::observation_target(bliss::observation_target)> on_target;
    std::function<bliss::cadence(bliss::cadence)> on_cadence;
    std::function<bool(const Chan &, std::vector<uint8_t> &)> want;
};
template <class... A> static Flagger wrap(const std::string &name, std::function<bool(const Chan &, std::vector<uint8_t> &)> want, int which, A... a) {
    Flagger f;
    f.name = name;
    f.want = want;
    auto make = [&](auto call) {
        f.on = [=](coarse_channel c) { return call(c); };
        f.on_scan = [=](scan c) { return call(c); };
        f.on_target = [=](bliss::observation_target c) { return call(c); };
        f.on_cadence = [=](bliss::cadence c) { return call(c); };
    };
    if constexpr (sizeof...(A) == 0) make([](auto x) { return bliss::flag_magnitude(x); });
    if constexpr (sizeof...(A) == 1) {
        if (which == 0) make([=](auto x) { return bliss::flag_filter_rolloff(x, a...); });
        else make([=](auto x) { return bliss::flag_magnitude(x, a...); });
    }
    if constexpr (sizeof...(A) == 3) {
        if (which == 1) make([=](auto x) { return bliss::flag_spectral_kurtosis(x, a...); });
        else make([=](auto x) { return bliss::flag_sigmaclip(x, a...); });
    }
    return f;
}
static Flagger pick_flagger(const std::vector<int> &kinds) {
    switch (rng.pick(kinds)) {
    case 0: {
        float w = rng.pick<float>({0.f, 0.001f, 0.02f, 0.1f, 0.2f, 0.25f, 0.4f, 0.5f});
        if (rng.coin()) w = rng.uniform() * 0.5;
        return wrap(cat("rolloff(", w, ")"), [w](const Chan &c, std::vector<uint8_t> &v) {
            float x = (float)c.F * w;
            if (std::fabs(x - std::floor(x) - 0.5) < 1e-4) return false;
            roll_want(c, w, v);
            return true; }, 0, w);
    }
    case 1: {
        float lo = rng.pick<float>({0.05f, 0.25f, 1.f}), hi = rng.pick<float>({2.f, 5.f, 50.f}), d = rng.pick<float>({1.f, 2.f});
        if (rng.coin()) { lo = rng.uniform() * 3; hi = lo + rng.uniform() * 10; }
        return wrap(cat("kurtosis(", lo, ",", hi, ",", d, ")"), [=](const Chan &c, std::vector<uint8_t> &v) { return sk_want(c, lo, hi, d, v); }, 1, lo, hi, d);
    }
    case 2: {
        float thr = rng.pick<float>({5.f, 20.f, 100.f, 104.f, 3.f});
        return wrap(cat("magnitude(", thr, ")"), [=](const Chan &c, std::vector<uint8_t> &v) { return mag_want(c, thr, v); }, 2, thr);
    }
    case 3:
        return wrap("magnitude()", [](const Chan &c, std::vector<uint8_t> &v) {
            double m, s;
            std::vector<char> none(c.T * c.F, 0);
            stats(c, none, m, s);
            return mag_want(c, m + 10 * s, v, false); }, 3);
    default: {
        int it = rng.range(1, 6);
        float lo = rng.pick<float>({1.5f, 2.f, 3.f}), hi = rng.pick<float>({1.5f, 2.f, 4.f});
        return wrap(cat("sigma(", it, ",", lo, ",", hi, ")"), [=](const Chan &c, std::vector<uint8_t> &v) { return sig_want(c, it, lo, hi, v); }, 4, it, lo, hi);
    }
    }
}
static const char *keyname(const std::string &n) { return n[0] == 'r' ? "flag.rolloff" : n[0] == 'k' ? "flag.kurtosis" : n[0] == 'm' ? "flag.magnitude" : "flag.sigma"; }

static void sequences(const std::vector<int> &kinds, const char *what) {
    int n = scale(350, 4000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        Chan c = mkchan();
        std::vector<uint8_t> want(c.T * c.F);
        for (int64_t k = 0; k < c.T * c.F; ++k) want[k] = c.m.val(k);
        auto cc = mk(c);
        int steps = rng.range(1, 4);
        std::string hist;
        Flagger f;
        for (int s = 0; s < steps; ++s) {
            if (s == 0 || rng.coin()) f = pick_flagger(kinds); // the same one again half of the time
            hist += f.name + ";";
            auto w2 = want;
            if (!f.want(c, w2)) break;
            note_case(cat(what, " on ", c.d.desc, " mask ", c.m.desc, " foff=", c.foff, " tsamp=", c.tsamp, ": ", hist));
            bool ok = true;
            guarded(keyname(f.name), [&] {
                cc = f.on(cc);
                want = w2;
                int reads = rng.range(1, 2);
                for (int r = 0; r < reads && ok; ++r) ok = mask_is(cc.mask(), want, c.T, c.F, keyname(f.name), cat("after ", hist, r ? " second reading" : ""));
                if (!c.m.untouched()) { fail(keyname(f.name), cat("after ", hist, " the mask of the original channel was altered")); ok = false; }
                if (!c.d.untouched()) { fail(keyname(f.name), cat("after ", hist, " the data was altered")); ok = false; }
                if (ok && elems<float>(cc.data()) != elems<float>(c.d.arr)) fail(keyname(f.name), "the data changed");
            });
            if (!ok) break;
        }
    }
}
// every level (scan, target, cadence): every channel is flagged by its own data
static void levels(const std::vector<int> &kinds) {
    int n = scale(120, 1500);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int nc = rng.range(1, 4), level = rng.range(0, 2), nscans = level ? rng.range(1, 3) : 1;
        int64_t T = rng.range(2, 5), F = rng.range(2, 12);
        std::vector<std::vector<Chan>> cs(nscans);
        std::vector<scan> scans;
        double foff = 0;
        for (int s = 0; s < nscans; ++s) {
            std::map<int, std::shared_ptr<coarse_channel>> m;
            for (int i = 0; i < nc; ++i) {
                cs[s].push_back(mkchan(T, F));
                if (!foff) foff = cs[s][i].foff;
                cs[s][i].foff = foff; cs[s][i].tsamp = 2.5;
                m[i] = std::make_shared<coarse_channel>(mk(cs[s][i], i));
            }
            scans.push_back(scan(m));
        }
        auto f = pick_flagger(kinds), g = pick_flagger(kinds);
        bool two = rng.coin(), ok = true;
        std::vector<std::vector<std::vector<uint8_t>>> want(nscans);
        for (int s = 0; s < nscans; ++s) for (int i = 0; i < nc; ++i) {
            std::vector<uint8_t> w(T * F);
            for (int64_t k = 0; k < T * F; ++k) w[k] = cs[s][i].m.val(k);
            ok = ok && f.want(cs[s][i], w) && (!two || g.want(cs[s][i], w));
            want[s].push_back(w);
        }
        if (!ok) continue;
        const char *lv[] = {"scan", "target", "cadence"};
        note_case(cat(lv[level], " of ", nscans, " scans, ", nc, " channels of ", T, "x", F, ": ", f.name, two ? g.name : ""));
        std::string key = keyname(two ? g.name : f.name);
        guarded(key, [&] {
            std::vector<scan> out;
            if (level == 0) {
                auto r = f.on_scan(scans[0]);
                if (two) r = g.on_scan(r);
                out = {r};
            } else {
                bliss::observation_target t(scans);
                if (level == 1) {
                    auto r = f.on_target(t);
                    if (two) r = g.on_target(r);
                    out = r._scans;
                } else {
                    bliss::cadence ca(std::vector<bliss::observation_target>{t, t});
                    auto r = f.on_cadence(ca);
                    if (two) r = g.on_cadence(r);
                    if (r._observations.size() != 2) { fail(key, "cadence lost targets"); return; }
                    out = r._observations[rng.range(0, 1)]._scans;
                }
            }
            if ((int)out.size() != nscans) { fail(key, "scans lost"); return; }
            for (int s = 0; s < nscans; ++s) for (int i = 0; i < nc; ++i) {
                if (!mask_is(out[s].read_coarse_channel(i)->mask(), want[s][i], T, F, key, cat(lv[level], " scan ", s, " channel ", i, " after ", f.name, two ? g.name : ""))) return;
                if (!cs[s][i].m.untouched()) { fail(key, "the mask of the original scan was altered"); return; }
            }
        });
    }
}
static void noise() {
    int n = scale(900, 6000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        Chan c;
        switch (rng.range(0, 59)) { // numbers of samples that are multiples of 256 or 65536, all of them unmasked
        case 0: c = mkchan(16, 16, true); break;
        case 1: c = mkchan(2, 128, true); break;
        case 2: c = mkchan(6, 128, true); break;
        case 3: if (rng.range(0, 3) == 0) { c = mkchan(8, 8192, true); break; } [[fallthrough]];
        default: c = mkchan();
        }
        bool masked = rng.coin(), arr = rng.range(0, 3) == 0, full = rng.range(0, 9) == 0;
        if (arr) masked = false;
        if (full) { c.m = mkview<uint8_t>({c.T, c.F}, [&] { return (uint8_t)rng.range(1, 255); }); }
        std::vector<char> skip(c.T * c.F, 0);
        if (masked) for (int64_t k = 0; k < c.T * c.F; ++k) skip[k] = c.m.val(k) != 0;
        double m = 0, s = 0;
        bool any = stats(c, skip, m, s);
        int level = arr ? 0 : rng.range(0, 2);
        note_case(cat("noise of ", c.d.desc, " mask ", c.m.desc, masked ? " masked" : " unmasked", any ? "" : " (everything flagged)", arr ? " array" : level ? " scan" : " channel"));
        bliss::noise_power_estimate_options o;
        o.estimator_method = bliss::noise_power_estimator::STDDEV;
        o.masked_estimate = masked;
        auto run = [&] {
            if (arr) return bliss::estimate_noise_power(c.d.arr, o);
            if (level == 0) return bliss::estimate_noise_power(mk(c), o);
            std::map<int, std::shared_ptr<coarse_channel>> mp;
            mp[0] = std::make_shared<coarse_channel>(mk(c));
            scan sc(mp);
            if (level == 1) return bliss::estimate_noise_power(sc, o).read_coarse_channel(0)->noise_estimate();
            bliss::observation_target t(std::vector<scan>{sc, sc});
            if (rng.coin()) return bliss::estimate_noise_power(t, o)._scans[rng.range(0, 1)].read_coarse_channel(0)->noise_estimate();
            bliss::cadence ca(std::vector<bliss::observation_target>{t, t});
            return bliss::estimate_noise_power(ca, o)._observations[1]._scans[rng.range(0, 1)].read_coarse_channel(0)->noise_estimate();
        };
        if (!any) {
            if (!throws(run)) fail("noise.full", "an estimate was given although every bin is flagged");
            continue;
        }
        guarded("noise", [&] {
            auto ns = run();
            if (!close_to(ns.noise_floor(), m, 1e-5, 1e-5)) fail("noise.floor", cat("floor ", ns.noise_floor(), " expected ", m));
            double tol = 1e-4 * (1 + std::fabs(m)) + 1e-3;
            if (std::fabs(ns.noise_power() - s) > tol) fail("noise.power", cat("power ", ns.noise_power(), " expected ", s));
            if (!close_to((double)ns.noise_amplitude() * ns.noise_amplitude(), ns.noise_power(), 1e-5, 1e-6) || ns.noise_amplitude() < 0) fail("noise.amplitude", cat("amplitude ", ns.noise_amplitude(), " of power ", ns.noise_power()));
            if (!c.d.untouched() || !c.m.untouched()) fail("noise.inputs", "the channel was altered");
        });
    }
}
static void kurtosis() {
    int n = scale(900, 6000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        Chan c = mkchan();
        if (rng.range(0, 3) == 0) { c.foff = rng.pick<double>({2.86102294921875e-3, -0.5, 1}); c.tsamp = rng.pick<double>({1.073741824, 0.35, 60}); } // many samples averaged
        float d = rng.pick<float>({1.f, 2.f, 0.5f});
        bool arr = rng.coin();
        int32_t N = arr ? (rng.range(0, 2) ? (int32_t)rng.range(1, 200) : rng.pick<int32_t>({3067, 20000, 40000, 70000, 1000003, 40000000})) : (int32_t)std::llround(c.tsamp * std::fabs(1e6 * c.foff));
        int32_t M = arr && rng.range(0, 3) == 0 ? (int32_t)rng.range(2, 40) : (int32_t)c.T;
        note_case(cat("kurtosis of ", c.d.desc, " N=", N, " M=", M, " d=", d, arr ? " array" : " channel"));
        guarded("sk", [&] {
            auto cc = mk(c);
            bland::ndarray r = arr ? bliss::estimate_spectral_kurtosis(c.d.arr, N, M, d) : bliss::estimate_spectral_kurtosis(cc, d);
            if (r.shape() != IV{c.F}) { fail("sk.shape", cat("shape ", str(r.shape()), " expected {", c.F, "}")); return; }
            auto got = elems<float>(r);
            for (int64_t f = 0; f < c.F; ++f) {
                double want = sk_of(c, f, N, M, d), tol = 2e-5 * (M * (double)N * d + 1) * 3 + 1e-4 * std::fabs(want);
                if (!(std::fabs(got[f] - want) <= tol)) { fail("sk.value", cat("channel ", f, " has ", got[f], " expected ", want)); break; }
            }
            if (!c.d.untouched()) fail("sk.inputs", "the spectrum was altered");
        });
    }
}
static void preprocess() {
    int n = scale(900, 6000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int64_t T = rng.range(1, 5), F = rng.range(1, 16);
        bool eq = rng.coin();
        int level = rng.range(0, 3), nc = level ? rng.range(1, 3) : 1;
        std::vector<Chan> cs;
        std::map<int, std::shared_ptr<coarse_channel>> m;
        double foff = 1e-6;
        for (int i = 0; i < nc; ++i) { cs.push_back(mkchan(T, F)); cs[i].foff = foff; cs[i].tsamp = 1; }
        for (int i = 0; i < nc; ++i) m[i] = std::make_shared<coarse_channel>(mk(cs[i], i));
        auto h = mkview<float>({F}, [] { return (float)(rng.range(1, 8) * 0.25); });
        const char *lv[] = {"channel", "scan", "target", "cadence"};
        bool file = eq && level && rng.range(0, 3) == 0;
        note_case(cat(eq ? "equalize " : "normalize ", lv[level], " of ", nc, " channels ", cs[0].d.desc, eq ? " by " + h.desc : "", file ? " from file" : ""));
        guarded("prep", [&] {
            std::string path = "h.f32";
            if (file) {
                auto hv = elems<float>(h.arr);
                std::ofstream o(path, std::ios::binary);
                o.write((const char *)hv.data(), 4 * F);
            }
            std::vector<coarse_channel> out;
            auto ap = [&](auto x) { return eq ? (file ? bliss::equalize_passband_filter(x, std::string_view(path)) : bliss::equalize_passband_filter(x, h.arr)) : bliss::normalize(x); };
            if (level == 0) out.push_back(ap(mk(cs[0])));
            else {
                scan sc(m);
                scan r;
                if (level == 1) r = ap(sc);
                else {
                    bliss::observation_target t(std::vector<scan>{sc, sc});
                    if (level == 2) r = ap(t)._scans[rng.range(0, 1)];
                    else r = ap(bliss::cadence(std::vector<bliss::observation_target>{t, t}))._observations[rng.range(0, 1)]._scans[rng.range(0, 1)];
                }
                for (int i = 0; i < nc; ++i) out.push_back(*r.read_coarse_channel(i));
            }
            for (int i = 0; i < nc; ++i) {
                auto d = out[i].data();
                if (d.shape() != IV{T, F}) { fail("prep.shape", "shape " + str(d.shape())); return; }
                auto got = elems<float>(d);
                float mx = -1e30;
                for (int64_t k = 0; k < T * F; ++k) mx = std::max(mx, cs[i].d.val(k));
                for (int64_t k = 0; k < T * F; ++k) {
                    double want = cs[i].d.val(k) / (eq ? h.val(k % F) : mx);
                    if (!close_to(got[k], want, 1e-5, 1e-6)) { fail(eq ? "prep.equalize" : "prep.normalize", cat("channel ", i, " bin (", k / F, ",", k % F, ") is ", got[k], " expected ", want)); return; }
                }
                if (!mask_is(out[i].mask(), elems<uint8_t>(cs[i].m.arr), T, F, "prep.mask", "mask")) return;
                if (!cs[i].d.untouched() || !cs[i].m.untouched()) { fail("prep.inputs", "the original channel was altered"); return; }
            }
        });
    }
}
int main(int argc, char **argv) {
    init();
    if (part("flag")) {
        for (int k = 0; k < 5; ++k) sequences({k}, "one flagger");
        sequences({0, 1, 2, 3, 4}, "flaggers");
        levels({0, 1, 2, 3, 4});
    }
    if (part("noise")) noise();
    if (part("sk")) kurtosis();
    if (part("prep")) preprocess();
    return finish();
}
