#include <set>
// bounded validation of scans: channels read from real filterbank files, inference, consistency, whole-scan searches
#include "common.hpp"
#include <H5Cpp.h>
#include <core/cadence.hpp>
#include <core/scan.hpp>
#include <drift_search/filter_hits.hpp>
#include <drift_search/hit_search.hpp>
#include <drift_search/integrate_drifts.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <tuple>
#include <algorithm>
using namespace hz;
using bliss::coarse_channel;
using bliss::scan;
std::tuple<int, int> infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp);

struct Meta {
    double fch1, foff, tsamp, tstart, raj, dej, az, za;
    int64_t machine, telescope, nbits, nifs, dtype;
    std::string name;
};
static float val(int64_t t, int64_t f) { return t * 1000 + f; }
template <class H, class T> static void attr(H &d, const char *n, T v, const H5::DataType &ty) { d.createAttribute(n, ty, H5::DataSpace()).write(ty, &v); }
static void write_file(const std::string &path, int64_t T, int64_t F, const Meta &m, bool optional_attrs, bool swapped) {
    H5::H5File f(path, H5F_ACC_TRUNC);
    hsize_t dims[3] = {(hsize_t)T, 1, (hsize_t)F};
    auto ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(3, dims));
    std::vector<float> v(T * F);
    for (int64_t t = 0; t < T; ++t) for (int64_t i = 0; i < F; ++i) v[t * F + i] = val(t, i);
    ds.write(v.data(), H5::PredType::NATIVE_FLOAT);
    H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE);
    hsize_t three = 3;
    const char *lab[3] = {swapped ? "frequency" : "time", "feed_id", swapped ? "time" : "frequency"};
    ds.createAttribute("DIMENSION_LABELS", st, H5::DataSpace(1, &three)).write(st, lab);
    auto D = H5::PredType::NATIVE_DOUBLE;
    auto L = H5::PredType::NATIVE_INT64;
    attr(ds, "fch1", m.fch1, D); attr(ds, "foff", m.foff, D); attr(ds, "tsamp", m.tsamp, D); attr(ds, "tstart", m.tstart, D);
    attr(ds, "src_raj", m.raj, D); attr(ds, "src_dej", m.dej, D); attr(ds, "telescope_id", m.telescope, L); attr(ds, "nchans", (int64_t)F, L);
    attr(ds, "nbits", m.nbits, L); attr(ds, "nifs", m.nifs, L);
    if (optional_attrs) { attr(ds, "machine_id", m.machine, L); attr(ds, "az_start", m.az, D); attr(ds, "za_start", m.za, D); attr(ds, "data_type", m.dtype, L); }
    const char *nm = m.name.c_str();
    ds.createAttribute("source_name", st, H5::DataSpace()).write(st, &nm);
    auto cls = std::string("FILTERBANK");
    const char *c = cls.c_str(), *ver = "1.0";
    f.createAttribute("CLASS", st, H5::DataSpace()).write(st, &c);
    f.createAttribute("VERSION", st, H5::DataSpace()).write(st, &ver);
}

static void check_channel(scan &sc, int idx, int64_t global, double fch1_0, int64_t nf, int64_t T, const Meta &m, bool opt, bool peek = false) {
    auto cc = peek ? sc.peak_coarse_channel(idx) : sc.read_coarse_channel(idx);
    if (!cc) { fail("chan.null", "read_coarse_channel returned nothing"); return; }
    if (cc->nchans() != nf) fail("chan.nchans", cat("channel ", idx, " reports ", cc->nchans(), " fine channels, expected ", nf));
    double want = fch1_0 + m.foff * (double)(global * nf);
    if (!close_to(cc->fch1(), want, 1e-12, std::fabs(m.foff) * 0.01)) fail("chan.fch1", cat("channel ", idx, " starts at ", cc->fch1(), " expected ", want));
    if (cc->foff() != m.foff || cc->tsamp() != m.tsamp || cc->tstart() != m.tstart || cc->source_name() != m.name || cc->src_raj() != m.raj || cc->src_dej() != m.dej || cc->telescope_id() != m.telescope || cc->nifs() != m.nifs || cc->nbits() != m.nbits || cc->ntsteps() != T)
        fail("chan.meta", cat("metadata of channel ", idx, " differs from the scan's: foff ", cc->foff(), " tsamp ", cc->tsamp(), " tstart ", cc->tstart(), " name ", cc->source_name(), " raj ", cc->src_raj(), " dej ", cc->src_dej(), " tel ", cc->telescope_id(), " nifs ", cc->nifs(), " nbits ", cc->nbits(), " ntsteps ", cc->ntsteps()));
    if (opt && (cc->machine_id() != m.machine || cc->az_start() != m.az || cc->za_start() != m.za || cc->data_type() != m.dtype)) fail("chan.meta", "optional metadata differs from the scan's");
    if (cc->_coarse_channel_number != global) fail("chan.number", cat("channel ", idx, " is numbered ", cc->_coarse_channel_number, " expected ", global));
    auto d = cc->data();
    auto k = cc->mask();
    auto want_shape = std::vector<int64_t>{T, nf};
    if (d.shape() != want_shape || k.shape() != want_shape) { fail("chan.shape", cat("data shape ", str(d.shape()), " mask shape ", str(k.shape()), " expected ", str(want_shape))); return; }
    auto *p = d.data_ptr<float>();
    auto s = d.strides();
    auto *q = k.data_ptr<uint8_t>();
    auto ks = k.strides();
    for (int64_t t = 0; t < T; ++t)
        for (int64_t f = 0; f < nf; ++f) {
            if (p[t * s[0] + f * s[1]] != val(t, global * nf + f)) { fail("chan.data", cat("channel ", idx, " time ", t, " channel ", f, " holds ", p[t * s[0] + f * s[1]], " expected ", val(t, global * nf + f))); return; }
            if (q[t * ks[0] + f * ks[1]] != 0) { fail("chan.mask", "a fresh mask carries flags"); return; }
        }
}

static Meta rmeta() {
    Meta m;
    m.fch1 = rng.range(1000, 9000) + rng.range(0, 1023) / 1024.0;
    m.foff = rng.pick<double>({-2.7939677238464355e-06, 2.7939677238464355e-06, -0.0029, 0.25, -1.0});
    m.tsamp = rng.pick<double>({1.0, 18.253611008, 0.5});
    m.tstart = 57000 + rng.uniform() * 100;
    m.raj = rng.uniform() * 24; m.dej = rng.uniform() * 180 - 90; m.az = rng.uniform() * 360; m.za = rng.uniform() * 90;
    m.machine = rng.range(0, 99); m.telescope = rng.range(0, 12); m.nbits = 32; m.nifs = 1; m.dtype = 1;
    m.name = rng.pick<std::string>({"Voyager1", "HIP 4436", "x"});
    return m;
}

static void files(bool reads, bool infer) {
    int n = scale(500, 3000);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        Meta m = rmeta();
        int64_t T = rng.range(1, 5), nf = rng.range(1, 9), nc = rng.range(1, 6);
        if (rng.coin() && nf * nc == T) T++;
        bool opt = rng.coin();
        bool swapped = rng.range(0, 3) == 0 && nf * nc != T;
        std::string path = cat("f", getpid(), ".h5");
        note_case(cat("file T=", T, " fine=", nf, " coarse=", nc, " foff=", m.foff, " optional=", opt, " swapped labels=", swapped));
        guarded("file", [&] {
            write_file(path, T, nf * nc, m, opt, swapped);
            if (!reads) return;
            scan sc(path, (int)nf);
            if (sc.get_number_coarse_channels() != nc) fail("chan.count", cat("scan has ", sc.get_number_coarse_channels(), " coarse channels, expected ", nc));
            if (sc.nchans() != nf * nc || sc.fch1() != m.fch1 || sc.foff() != m.foff || sc.ntsteps() != T || !close_to(sc.tduration_secs(), T * m.tsamp, 1e-12)) fail("chan.scanmeta", "scan metadata differs from the file's");
            // random history of reads, including slices of slices
            std::vector<std::tuple<scan, int64_t, int64_t, std::set<int64_t>>> views{{sc, 0, nc, {}}};
            for (int step = 0; step < 16; ++step) {
                auto &[v, off, cnt, loaded] = views[rng.range(0, views.size() - 1)];
                int what = rng.range(0, 7);
                if (what == 0) {
                    int64_t s0 = rng.range(0, cnt - 1), c = rng.range(1, cnt - s0);
                    bool all = rng.range(0, 2) == 0;
                    auto nv = v.slice_scan_channels(s0, all ? -1 : c);
                    int64_t c2 = all ? cnt - s0 : c, o2 = off + s0;
                    if (nv.get_number_coarse_channels() != c2 || nv.nchans() != c2 * nf || !close_to(nv.fch1(), m.fch1 + m.foff * (double)(o2 * nf), 1e-12, std::fabs(m.foff) * 0.01)) fail("slice.meta", cat("slice from ", s0, " count ", c2, ": channels ", nv.get_number_coarse_channels(), " fine ", nv.nchans(), " fch1 ", nv.fch1()));
                    auto had = loaded;
                    views.emplace_back(nv, o2, c2, had);
                } else if (what == 1) {
                    for (int bad : {-1, (int)cnt, (int)cnt + 1}) {
                        if (!throws([&] { v.read_coarse_channel(bad); })) fail("chan.range", cat("channel index ", bad, " of ", cnt, " is not rejected"));
                        if (!throws([&] { v.peak_coarse_channel(bad); })) fail("chan.range", cat("channel index ", bad, " of ", cnt, " is not rejected by peak"));
                    }
                } else if (what == 2) {
                    int64_t i = rng.range(0, cnt - 1);
                    double f = m.fch1 + m.foff * ((off + i) * nf + rng.range(1, 9) / 10.0 * nf);
                    if (std::fabs(m.foff) > 1e-4 && v.get_coarse_channel_with_frequency(f) != i) fail("freq", cat("frequency ", f, " is said to lie in channel ", v.get_coarse_channel_with_frequency(f), " expected ", i));
                } else if (what <= 4) {
                    // only channels already in memory are peeked at
                    int64_t i = rng.range(0, cnt - 1);
                    if (!loaded.count(off + i)) {
                        if (v.peak_coarse_channel(i)) fail("chan.peek", cat("channel ", i, " was never read but is said to be in memory"));
                    } else check_channel(v, i, off + i, m.fch1, nf, T, m, opt, true);
                } else {
                    int64_t i = rng.range(0, cnt - 1);
                    check_channel(v, i, off + i, m.fch1, nf, T, m, opt);
                    loaded.insert(off + i);
                }
            }
        });
        // inferred channelization read from the file
        guarded("file", [&] {
            if (!infer) return;
            scan sc(path, 0);
            int64_t c = sc.get_number_coarse_channels();
            if (c < 1 || sc.nchans() % c) fail("infer.file", cat("inferred ", c, " coarse channels for ", sc.nchans()));
            else check_channel(sc, c - 1, c - 1, m.fch1, sc.nchans() / c, T, m, opt);
        });
        unlink(path.c_str());
    }
}

static coarse_channel mk(double fch1, double foff, int64_t F, int64_t T, int number, float tone = 0, int tone_at = 0) {
    bland::ndarray d({T, F}, 1.0f, bland::ndarray::datatype::float32), k({T, F}, 0, bland::ndarray::datatype::uint8);
    auto *p = d.data_ptr<float>();
    for (int64_t t = 0; t < T; ++t) for (int64_t f = 0; f < F; ++f) p[t * F + f] = f == tone_at ? tone : 1.0f;
    return coarse_channel(d, k, fch1, foff, 0, 32, F, T, 1, "src", 1.0, 2.0, 3, 1.5, 59000.0, 1, 0.0, 0.0, number);
}

static void inference() {
    const int fine[] = {1033216, 999424, 1048576, 8, 1024};
    struct K { int f; double r, t; };
    const K known[] = {{1033216, 2.84, 17.98}, {8, 366210.0, 0.00034953}, {1024, 2860.0, 1.06}, {999424, 2.93, 17.4}, {1048576, 2.79, 18.25}};
    int n = scale(4000, 40000);
    for (int it = 0; it < n; ++it) {
        int fc;
        double foff, ts;
        int expect = -1;
        if (rng.coin()) {
            const K &k = known[rng.range(0, 4)];
            int64_t c = rng.range(1, std::min<int64_t>(2000, 2147483647 / k.f));
            fc = c * k.f; foff = (rng.coin() ? -1 : 1) * (k.r + (rng.uniform() - .5) * 0.02); ts = k.t + (rng.uniform() - .5) * 0.02;
            // a scheme listed earlier may match as well
            expect = k.f;
            for (const K &o : {K{1033216, 2.84, 17.98}, K{8, 366210.0, 0.00034953}, K{1024, 2860.0, 1.06}, K{999424, 2.93, 17.4}, K{1024, 2860.0, 1.02}, K{1048576, 2.79, 18.25}})
                if (fc % o.f == 0 && std::fabs(std::fabs(foff) - o.r) < .1 && std::fabs(ts - o.t) < .1) { expect = o.f; break; }
        } else {
            int b = rng.range(0, 4);
            fc = b == 0 ? rng.range(1, 3000) : b == 1 ? rng.range(1, 1 << 19) : b == 2 ? (int)(rng.range(1, 8) * (1 << 18)) + (int)rng.range(0, 40) : b == 3 ? (int)rng.range(1, 2000) * 1000000 + (int)rng.range(0, 4000) : rng.range(1, 2147483646);
            foff = rng.pick<double>({1.0, -100.0, 0.5}); ts = rng.pick<double>({0.1, 5});
        }
        note_case(cat("infer fine=", fc, " foff=", foff, " tsamp=", ts));
        auto [c, f] = infer_number_coarse_channels(fc, foff, ts);
        if (c < 1 || f < 1 || (int64_t)c * f != fc) fail("infer.divides", cat(c, " coarse channels of ", f, " fine channels for ", fc));
        if (expect > 0 && f != expect) fail("infer.known", cat("known scheme with ", expect, " fine channels per coarse channel inferred as ", f));
        if (expect < 0) {
            auto near = [&](int64_t b) { return fc >= b && ((fc % b) % (fc / b)) == 0; };
            int w = near(1 << 18) ? fc / (1 << 18) : near(1000000) ? fc / 1000000 : 1;
            if (c != w) fail("infer.fallback", cat("inferred ", c, " coarse channels, expected ", w));
        }
    }
}

static void consistency() {
    int n = scale(3000, 30000);
    for (int it = 0; it < n; ++it) {
        int nt = rng.range(1, 3);
        double F0 = 1000 + rng.range(0, 5), O0 = rng.pick<double>({-0.5, 0.25, 1e-3});
        int64_t N0 = rng.range(0, 2) ? rng.range(1, 9) : rng.pick<int64_t>({300, 40000, 65536 + rng.range(0, 9), 1 << 20, 1 << 30});
        std::vector<bliss::observation_target> ts;
        std::string d;
        double rf = 0, ro = 0;
        int64_t rn = 0;
        bool have = false, all_ok = true;
        for (int t = 0; t < nt; ++t) {
            int ns = rng.range(0, 3);
            std::vector<scan> v;
            bool ok = true;
            double f1 = 0, o1 = 0;
            int64_t n1 = 0;
            for (int s = 0; s < ns; ++s) {
                scan sc;
                double f = F0, o = O0;
                int64_t nn = N0;
                int c = rng.range(0, 11);
                if (c == 0) f += rng.pick<double>({2e-6, -2e-6, 1});
                if (c == 1) o += rng.pick<double>({2e-6, -2e-6, 1});
                if (c == 2) nn += rng.pick<int>({1, -1, 7, 256, 65536, 1 << 24});
                if (c == 3) f += 7e-7 * rng.range(-1, 1);
                if (c == 4) o += 7e-7 * rng.range(-1, 1);
                sc.set_fch1(f); sc.set_foff(o); sc.set_nchans(nn);
                d += cat("(", f, ",", o, ",", nn, ")");
                if (s == 0) { f1 = f; o1 = o; n1 = nn; }
                ok = ok && std::fabs(f - f1) < 1e-6 && std::fabs(o - o1) < 1e-6 && nn == n1;
                if (!have) { have = true; rf = f; ro = o; rn = nn; }
                all_ok = all_ok && std::fabs(f - rf) < 1e-6 && std::fabs(o - ro) < 1e-6 && nn == rn;
                v.push_back(sc);
            }
            d += "|";
            bliss::observation_target tg(v);
            note_case(cat("target of ", d));
            if (tg.validate_scan_consistency() != ok) fail("consistency.target", cat("consistent=", ok, " but the target says ", !ok));
            if (throws([&] { tg.get_number_coarse_channels(); }) != (!ok || ns == 0)) fail("consistency.target.count", cat("number of channels ", ok && ns ? "refused for consistent" : "given for inconsistent or absent", " scans"));
            if (throws([&] { tg.get_coarse_channel_with_frequency(F0); }) != (!ok || ns == 0)) fail("consistency.target.freq", cat("frequency lookup ", ok && ns ? "refused for consistent" : "given for inconsistent or absent", " scans"));
            ts.push_back(tg);
        }
        bliss::cadence cad(ts);
        note_case(cat("cadence of ", d));
        if (cad.validate_scan_consistency() != all_ok) fail("consistency.cadence", cat("consistent=", all_ok, " but the cadence says ", !all_ok));
        if (throws([&] { cad.get_number_coarse_channels(); }) != (!all_ok || !have)) fail("consistency.cadence.count", "number of channels given for inconsistent scans or refused for consistent ones");
        if (throws([&] { cad.get_coarse_channel_with_frequency(F0); }) != (!all_ok || !have)) fail("consistency.cadence.freq", "frequency lookup given for inconsistent scans or refused for consistent ones");
    }
}

// scans assembled in memory: channel metadata, transforms in order, slices, whole-scan searches
static scan memscan(int nc, int64_t F, int64_t T, double fch1, double foff, std::vector<int> &tones) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    tones.clear();
    for (int i = 0; i < nc; ++i) {
        tones.push_back(rng.range(0, F - 1));
        m[i] = std::make_shared<coarse_channel>(mk(fch1 + foff * F * i, foff, F, T, i, 500.0f + i, tones.back()));
        m[i]->set_noise_estimate([] { bliss::noise_stats s; s.set_noise_floor(bland::ndarray({1}, 0.0f, bland::ndarray::datatype::float32)); s.set_noise_power(bland::ndarray({1}, 1.0f, bland::ndarray::datatype::float32)); return s; }());
    }
    return scan(m);
}
static void memory_scans() {
    int n = scale(400, 2500);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int nc = rng.range(1, 5);
        int64_t F = rng.range(8, 20), T = rng.range(2, 4);
        double foff = rng.coin() ? -1e-6 : 1e-6, fch1 = 1420.0;
        std::vector<int> tones;
        note_case(cat("in-memory scan coarse=", nc, " fine=", F, " T=", T, " foff=", foff));
        guarded("mem", [&] {
            auto sc = memscan(nc, F, T, fch1, foff, tones);
            if (sc.get_number_coarse_channels() != nc || sc.nchans() != nc * F || sc.fch1() != fch1 || sc.foff() != foff || sc.ntsteps() != T) fail("mem.meta", "metadata of an assembled scan differs from its channels'");
            int s0 = rng.range(0, nc - 1), c = rng.range(1, nc - s0);
            auto sl = sc.slice_scan_channels(s0, c);
            if (sl.nchans() != c * F || sl.get_number_coarse_channels() != c || !close_to(sl.fch1(), fch1 + foff * F * s0, 1e-15, 1e-8)) fail("mem.slice", cat("slice ", s0, "+", c, " has ", sl.nchans(), " fine channels from ", sl.fch1()));
            for (int i = 0; i < c; ++i)
                if (sl.read_coarse_channel(i)->_coarse_channel_number != s0 + i) fail("mem.slice", "slice returns the wrong channel");
            if (!throws([&] { sl.read_coarse_channel(c); })) fail("chan.range", cat("index ", c, " of a slice of ", c, " channels is not rejected"));
            // transforms
            auto tr = sc;
            int nt = rng.range(0, 3);
            for (int k = 0; k < nt; ++k) tr.add_coarse_channel_transform([k](coarse_channel x) { x._source_name += char('a' + k); return x; });
            std::string want = "src";
            for (int k = 0; k < nt; ++k) want += char('a' + k);
            for (int rep = 0; rep < 2; ++rep) {
                int i = rng.range(0, nc - 1);
                if (tr.read_coarse_channel(i)->source_name() != want || tr.peak_coarse_channel(i)->source_name() != want) fail("transform", cat("transforms give ", tr.read_coarse_channel(i)->source_name(), " expected ", want));
                if (sc.read_coarse_channel(i)->source_name() != "src") fail("transform", "a transform altered the original scan");
            }
        });
    }
}
// searches over scans, targets and cadences cover every channel of every scan, each with its own hits
static void whole_scans() {
    int n = scale(400, 2500);
    for (int it = 0; it < n && !out_of_time(); ++it) {
        int nc = rng.range(1, 5);
        int64_t F = rng.range(8, 20), T = rng.range(2, 4);
        double foff = rng.coin() ? -1e-6 : 1e-6, fch1 = 1420.0;
        std::vector<int> tones;
        note_case(cat("whole-scan search coarse=", nc, " fine=", F, " T=", T, " foff=", foff));
        guarded("whole", [&] {
            auto sc = memscan(nc, F, T, fch1, foff, tones);
            bliss::integrate_drifts_options io{};
            io.desmear = false; io.low_rate = 0; io.high_rate = 1;
            bliss::hit_search_options ho{};
            ho.snr_threshold = rng.pick<float>({10, 1e6}); ho.neighbor_l1_dist = 1;
            bool strict = ho.snr_threshold < 1000;
            int level = rng.range(0, 2);
            auto check = [&](scan s, const char *w) {
                auto hs = s.hits();
                std::vector<int> got, want;
                for (auto &h : hs) got.push_back(h.coarse_channel_number * 1000 + h.start_freq_index);
                for (int i = 0; i < nc; ++i) if (strict) want.push_back(i * 1000 + tones[i]);
                std::sort(got.begin(), got.end());
                if (got != want) fail("hit.whole", cat(w, ": hits (channel*1000+index) ", str(got), " expected ", str(want)));
            };
            if (level == 0) {
                auto a = bliss::integrate_drifts(sc, io);
                auto b = bliss::hit_search(a, ho);
                check(b, "scan");
            } else if (level == 1) {
                auto sc2 = sc;
                bliss::observation_target t(std::vector<scan>{sc, sc2});
                t = bliss::integrate_drifts(t, io);
                t = bliss::hit_search(t, ho);
                if (t._scans.size() != 2) fail("hit.whole", "target lost scans");
                for (auto &s : t._scans) check(s, "target");
            } else {
                bliss::observation_target t(std::vector<scan>{sc});
                bliss::cadence c(std::vector<bliss::observation_target>{t, t, t});
                c = bliss::integrate_drifts(c, io);
                c = bliss::hit_search(c, ho);
                if (c._observations.size() != 3) fail("hit.whole", "cadence lost targets");
                for (auto &o : c._observations) for (auto &s : o._scans) check(s, "cadence");
            }
        });
    }
}
int main(int argc, char **argv) {
    init();
    if (part("infer")) inference();
    if (part("consistency")) consistency();
    if (part("channels")) memory_scans();
    if (part("whole")) whole_scans();
    if (part("channels") || part("infer")) files(part("channels"), part("infer"));
    return finish();
}
