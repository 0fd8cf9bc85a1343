// bounded validation of hit files: binary round trips (list, channel, scan, target, cadence, events) and the text format
#include "common.hpp"
#include <core/cadence.hpp>
#include <core/event.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <file_types/events_file.hpp>
#include <file_types/hits_file.hpp>
#include <fstream>
using namespace hz;
using bliss::hit;
using bliss::coarse_channel;
using bliss::scan;

static double dbl() {
    switch (rng.range(0, 3)) {
        case 0: return 0;
        case 1: return rng.pick<double>({1420.40575177, 8419.29703, -1.5e-7, 5.1e9 + 1.0 / 3, 123456789.123456789, 1.0 / 3, -0.0318});
        default: return (rng.uniform() - 0.5) * std::pow(10.0, (double)rng.range(-6, 9));
    }
}
static float flt() { return (float)dbl(); }
static hit mk_hit() {
    hit h{};
    put(h.start_freq_index, rng.pick<int64_t>({0, 1, 524288, 1048575, rng.range(0, 1 << 20), INT32_MAX}), "hit.holds", "start_freq_index");
    put(h.start_freq_MHz, dbl(), "hit.holds", "start_freq_MHz");
    put(h.start_time_sec, rng.coin() ? 5.0e9 + rng.uniform() * 1e8 : dbl(), "hit.holds", "start_time_sec");
    h.duration_sec = std::fabs(dbl());
    put(h.rate_index, rng.range(0, 5000), "hit.holds", "rate_index");
    put(h.drift_rate_Hz_per_sec, dbl(), "hit.holds", "drift_rate_Hz_per_sec");
    h.power = dbl();
    put(h.time_span_steps, rng.range(1, 4096), "hit.holds", "time_span_steps");
    h.snr = flt();
    h.bandwidth = flt();
    put(h.binwidth, rng.range(1, 100000), "hit.holds", "binwidth");
    put(h.coarse_channel_number, rng.range(0, 700), "hit.holds", "coarse_channel_number");
    if (rng.coin()) h.rfi_counts[bliss::flag_values::filter_rolloff] = rng.range(0, 9);
    return h;
}
static std::list<hit> mk_hits(int mx = 6) {
    std::list<hit> l;
    for (int n = rng.range(0, mx); n > 0; --n) l.push_back(mk_hit());
    return l;
}
static std::string show(const hit &h) {
    std::ostringstream o;
    o.precision(17);
    o << "(index=" << h.start_freq_index << " freq=" << h.start_freq_MHz << " t=" << h.start_time_sec << " dur=" << h.duration_sec << " rate=" << h.rate_index << " drift=" << h.drift_rate_Hz_per_sec << " power=" << h.power
      << " steps=" << h.time_span_steps << " snr=" << h.snr << " bw=" << h.bandwidth << " bins=" << h.binwidth << " cc=" << h.coarse_channel_number << ")";
    return o.str();
}
template <class L> static std::string show(const L &l) {
    std::string s;
    int n = 0;
    for (auto &h : l) { if (n++ < 3) s += show(h); }
    return cat(n, " hits ") + s;
}
// equal up to the precision of the stored type; name of the first field that differs
static std::string differs(const hit &a, const hit &b) {
    if (a.start_freq_index != b.start_freq_index) return "start_freq_index";
    if (a.start_freq_MHz != b.start_freq_MHz) return "start_freq_MHz";
    if (a.start_time_sec != b.start_time_sec) return "start_time_sec";
    if ((float)a.duration_sec != (float)b.duration_sec) return "duration_sec";
    if (a.rate_index != b.rate_index) return "rate_index";
    if (a.drift_rate_Hz_per_sec != b.drift_rate_Hz_per_sec) return "drift_rate";
    if ((float)a.power != (float)b.power) return "power";
    if (a.time_span_steps != b.time_span_steps) return "time_span_steps";
    if (a.snr != b.snr) return "snr";
    if (a.bandwidth != b.bandwidth) return "bandwidth";
    if (a.binwidth != b.binwidth) return "binwidth";
    if (a.coarse_channel_number != b.coarse_channel_number) return "coarse_channel_number";
    return "";
}
template <class A, class Bt> static void same_hits(const std::string &key, const A &want, const Bt &got) {
    if (want.size() != got.size()) { fail(key + ".count", cat("read ", got.size(), " hits, wrote ", want.size())); return; }
    auto b = got.begin();
    int i = 0;
    for (auto &a : want) {
        auto d = differs(a, *b);
        if (!d.empty()) fail(key + "." + d, cat("hit ", i, " read as ") + show(*b) + " wrote " + show(a));
        ++b; ++i;
    }
}
struct Md { double fch1, foff, dej, raj, tsamp, tstart; int64_t tel, nch, nt; std::string name; };
static Md mk_md() {
    Md m;
    m.fch1 = 1000 + rng.uniform() * 10000; m.foff = (rng.coin() ? -1 : 1) * 2.7939677238464355e-06 * rng.range(1, 9); m.dej = (rng.uniform() - 0.5) * 180; m.raj = rng.uniform() * 24;
    m.tsamp = 1 + rng.uniform() * 20; m.tstart = 50000 + rng.uniform() * 10000; m.tel = rng.range(0, 80); m.nch = rng.pick<int64_t>({1, 16, 1 << 20, 1000000}); m.nt = rng.range(1, 300);
    m.name = rng.pick<std::string>({"", "VOYAGER1", "HIP 1234 (ON)", "x", "TIC 121966220, third pointing of the second night"});
    return m;
}
static coarse_channel mk_cc(const Md &m, const std::list<hit> &h, int64_t number, bool lazy) {
    coarse_channel cc(m.fch1, m.foff, 0, 32, m.nch, m.nt, 1, m.name, m.dej, m.raj, m.tel, m.tsamp, m.tstart, 1, 0.0, 0.0, number);
    if (lazy) cc.set_hits(std::function<std::list<hit>()>([h] { return h; }));
    else cc.set_hits(h);
    return cc;
}
static std::string show(const Md &m) { return cat("{fch1=", m.fch1, " foff=", m.foff, " dej=", m.dej, " raj=", m.raj, " tsamp=", m.tsamp, " tstart=", m.tstart, " tel=", m.tel, " nch=", m.nch, " nt=", m.nt, " name='", m.name, "'}"); }
template <class X> static void same_md(const std::string &key, const Md &m, X &x) {
    auto ck = [&](const char *n, auto a, auto b) { if (!(a == b)) fail(key + ".md." + n, cat(n, " read as ", b, " wrote ", a)); };
    ck("fch1", m.fch1, x.fch1()); ck("foff", m.foff, x.foff()); ck("dec", m.dej, x.src_dej()); ck("ra", m.raj, x.src_raj()); ck("tsamp", m.tsamp, x.tsamp()); ck("tstart", m.tstart, x.tstart());
    ck("telescope", m.tel, x.telescope_id()); ck("nchans", m.nch, x.nchans()); ck("ntsteps", m.nt, x.ntsteps()); ck("source", m.name, x.source_name());
}
struct Sc { Md md; std::vector<Md> cmd; std::vector<std::list<hit>> hits; std::vector<int64_t> num; };
// a scan and what it should be read back as
static scan mk_scan(Sc &w, int max_ch = 4) {
    int n = rng.range(1, max_ch);
    Md base = mk_md();
    std::map<int, std::shared_ptr<coarse_channel>> m;
    bool filter = rng.range(0, 3) == 0;
    for (int i = 0; i < n; ++i) {
        Md c = base;
        c.fch1 = base.fch1 + base.foff * base.nch * i;
        if (rng.range(0, 5) == 0) c.name = "other";
        auto h = mk_hits(4);
        m.insert({i, std::make_shared<coarse_channel>(mk_cc(c, h, i + 3, rng.coin()))});
        if (filter && !h.empty()) h.pop_front();
        w.cmd.push_back(c); w.hits.push_back(h); w.num.push_back(i + 3);
    }
    scan s(m);
    w.md = base;
    w.md.nch = base.nch * n;
    w.md.name = w.cmd[0].name;
    if (rng.coin()) {
        w.md.dej = base.dej / 2; w.md.raj = base.raj / 3; w.md.tel = base.tel + 1;
        s.set_src_dej(w.md.dej); s.set_src_raj(w.md.raj); s.set_telescope_id(w.md.tel);
    }
    if (rng.coin()) { w.md.tstart += 0.25; s.set_tstart(w.md.tstart); w.md.name = "renamed"; s.set_source_name("renamed"); }
    if (filter) s.add_coarse_channel_transform([](coarse_channel cc) { auto h = cc.hits(); if (!h.empty()) h.pop_front(); cc.set_hits(h); return cc; });
    if (n > 1 && rng.range(0, 2) == 0) {
        int a = rng.range(0, n - 1), k = rng.range(1, n - a);
        s = s.slice_scan_channels(a, k);
        w.cmd = {w.cmd.begin() + a, w.cmd.begin() + a + k}; w.hits = {w.hits.begin() + a, w.hits.begin() + a + k}; w.num = {w.num.begin() + a, w.num.begin() + a + k};
        w.md.fch1 = s.fch1(); w.md.nch = s.nchans();
    }
    return s;
}
static void check_scan(const std::string &key, const Sc &w, scan &r) {
    if (r.get_number_coarse_channels() != (int)w.hits.size()) { fail(key + ".channels", cat("read ", r.get_number_coarse_channels(), " channels, wrote ", w.hits.size())); return; }
    same_md(key, w.md, r);
    std::list<hit> all;
    for (size_t i = 0; i < w.hits.size(); ++i) {
        auto cc = r.read_coarse_channel(i);
        same_hits(key + ".channel", w.hits[i], cc->hits());
        same_md(key + ".channel", w.cmd[i], *cc);
        if (cc->_coarse_channel_number != w.num[i]) fail(key + ".channel.number", cat("channel number read as ", cc->_coarse_channel_number, " wrote ", w.num[i]));
        all.insert(all.end(), w.hits[i].begin(), w.hits[i].end());
    }
    same_hits(key + ".whole", all, r.hits());
}
static std::string show(const Sc &w) { std::string s = show(w.md); for (auto &h : w.hits) s += " [" + show(h) + "]"; return s; }

static std::vector<std::string> split(const std::string &l, char c) {
    std::vector<std::string> o{""};
    for (char x : l) if (x == c) o.push_back(""); else o.back() += x;
    return o;
}
static void check_dat(const Sc &w, const std::string &path) {
    std::ifstream f(path);
    std::vector<std::string> lines;
    std::string l, header_cols, mjd, delta, source;
    size_t nh = 0;
    std::vector<std::string> rows;
    while (std::getline(f, l)) {
        if (!l.empty() && l[0] == '#') {
            nh++;
            if (l.find("Top_Hit") != std::string::npos) header_cols = l.substr(2);
            if (l.find("MJD:") != std::string::npos) mjd = l;
            if (l.find("DELTAT:") != std::string::npos) delta = l;
            if (l.find("Source:") != std::string::npos) source = l;
        } else rows.push_back(l);
    }
    std::list<hit> all;
    for (auto &h : w.hits) all.insert(all.end(), h.begin(), h.end());
    if (source != "# Source:" + w.md.name) fail("dat.header.source", source);
    double v = 0, a = 0, b = 0, o = 0;
    char ra[64] = "", dec[64] = "";
    if (sscanf(mjd.c_str(), "# MJD: %lf\tRA: %63s\tDEC:%63s", &v, ra, dec) != 3 || v != w.md.tstart) fail("dat.header.mjd", mjd);
    int H = 0, M = 0, n = 0;
    double S = 0;
    if (sscanf(ra, "%dh%dm%lfs%n", &H, &M, &S, &n) != 3 || n != (int)strlen(ra) || M < 0 || M > 59 || S < 0 || S >= 60 || std::fabs(H * 3600.0 + M * 60.0 + S - w.md.raj * 3600) > 0.000501) fail("dat.header.ra", cat(mjd, " for ", w.md.raj, " hours"));
    int Dg = 0;
    char sg = 0;
    if (sscanf(dec, "%c%dd%dm%lfs%n", &sg, &Dg, &M, &S, &n) != 4 || n != (int)strlen(dec) || M < 0 || M > 59 || S < 0 || S >= 60 || std::fabs(Dg * 3600.0 + M * 60.0 + S - std::fabs(w.md.dej) * 3600) > 0.00501 || (w.md.dej < 0) != (sg == '-')) fail("dat.header.dec", cat(mjd, " for ", w.md.dej, " degrees"));
    if (sscanf(delta.c_str(), "# DELTAT: %lf\tDELTAF(Hz): %lf max_drift_rate: n/a\tobs_length: %lf", &a, &b, &o) != 3 || std::fabs(a - w.md.tsamp) > 6e-7 || std::fabs(b - w.md.foff * 1e6) > 6e-7 || std::fabs(o - w.md.nt * w.md.tsamp) > 6e-7 * (1 + o)) fail("dat.header.delta", delta);
    if (split(header_cols, '\t').size() != 12) fail("dat.header.columns", header_cols);
    if (rows.size() != all.size()) { fail("dat.rows", cat(rows.size(), " rows for ", all.size(), " hits")); return; }
    size_t i = 0;
    for (auto &h : all) {
        auto c = split(rows[i], '\t');
        ++i;
        if (c.size() != 12) { fail("dat.columns", rows[i - 1]); continue; }
        double end = h.start_freq_MHz + h.duration_sec * h.drift_rate_Hz_per_sec / 1e6;
        auto num = [&](int k, double want, const char *nm) { if (std::fabs(atof(c[k].c_str()) - want) > 6e-7 + 1e-15 * std::fabs(want)) fail(cat("dat.row.", nm), cat("column ", k, " is ", c[k], " want ", want) + " for " + show(h)); };
        num(0, i, "number"); num(1, h.drift_rate_Hz_per_sec, "drift"); num(2, h.snr, "snr"); num(3, (h.start_freq_MHz + end) / 2, "mid"); num(4, (h.start_freq_MHz + end) / 2, "mid"); num(5, h.start_freq_index, "index");
        num(6, h.start_freq_MHz, "start"); num(7, end, "end"); num(10, h.coarse_channel_number, "channel"); num(11, h.binwidth, "width");
    }
}
int main() {
    init();
    std::string base = "hitsfile";
    auto path = [&](const char *ext) { return base + ext; };
    int it = 0;
    auto more = [&](int quick, int deep) { return it++ < scale(quick, deep) && !out_of_time(); };
    if (part("capnp")) {
        for (it = 0; more(400, 6000);) {
            auto h = mk_hits(it % 50 == 0 ? 300 : 6);
            note_case("list: " + show(h), !h.empty());
            guarded("list", [&] {
                auto p = path(".cp");
                std::vector<hit> v(h.begin(), h.end());
                if (rng.coin()) bliss::write_hits_to_capnp_file(h, p); else bliss::write_hits_to_capnp_file(v, p);
                same_hits("list", h, bliss::read_hits_from_capnp_file(p));
                if (it % 7 == 0) same_hits("list.dispatch", h, bliss::read_hits_from_file(p, rng.coin() ? "" : "capnp"));
            });
        }
        for (it = 0; more(300, 4000);) {
            auto h = mk_hits();
            auto m = mk_md();
            int64_t num = rng.range(0, 700);
            note_case("channel: " + show(m) + show(h));
            guarded("channel", [&] {
                auto p = path(".cp");
                bliss::write_coarse_channel_hits_to_capnp_file(mk_cc(m, h, num, rng.coin()), p);
                auto r = bliss::read_coarse_channel_hits_from_capnp_file(p);
                same_hits("channel", h, r.hits());
                same_md("channel", m, r);
                if (r._coarse_channel_number != num) fail("channel.number", cat("channel number read as ", r._coarse_channel_number, " wrote ", num));
            });
        }
        for (it = 0; more(300, 4000);) {
            Sc w;
            scan s = mk_scan(w);
            note_case("scan: " + show(w));
            guarded("scan", [&] {
                static const char *ext[] = {".cp", ".capnp", ".hits", ".dat.cp"};
                auto p = path(ext[rng.range(0, 3)]);
                bool fmt = rng.coin();
                if (rng.coin()) bliss::write_scan_hits_to_capnp_file(s, p); else bliss::write_scan_hits_to_file(s, p, fmt ? "capnp" : "");
                auto r = rng.coin() ? bliss::read_scan_hits_from_capnp_file(p) : bliss::read_scan_hits_from_file(p, fmt ? "capnp" : "");
                check_scan("scan", w, r);
                unlink(p.c_str());
            });
        }
        for (it = 0; more(150, 2000);) {
            std::vector<std::vector<Sc>> w(rng.range(0, 3));
            bliss::cadence c;
            std::string d;
            for (auto &t : w) {
                bliss::observation_target o;
                t.resize(rng.range(0, 3));
                for (auto &x : t) { o._scans.push_back(mk_scan(x, 3)); d += show(x); }
                d += "|";
                c._observations.push_back(o);
            }
            note_case("cadence: " + d);
            guarded("cadence", [&] {
                auto p = path(".cp");
                auto check = [&](const std::string &key, const std::vector<Sc> &t, bliss::observation_target &o) {
                    if (o._scans.size() != t.size()) { fail(key + ".scans", cat("read ", o._scans.size(), " scans, wrote ", t.size())); return; }
                    for (size_t i = 0; i < t.size(); ++i) check_scan(key + ".scan", t[i], o._scans[i]);
                };
                bliss::write_cadence_hits_to_capnp_files(c, p);
                auto r = bliss::read_cadence_hits_from_capnp_files(p);
                if (r._observations.size() != w.size()) fail("cadence.targets", cat("read ", r._observations.size(), " targets, wrote ", w.size()));
                else for (size_t i = 0; i < w.size(); ++i) check("cadence", w[i], r._observations[i]);
                if (!w.empty()) {
                    bliss::write_observation_target_hits_to_capnp_files(c._observations[0], p);
                    auto t = bliss::read_observation_target_hits_from_capnp_files(p);
                    check("target", w[0], t);
                }
            });
        }
        for (it = 0; it < 1; ++it) {      // more than 64 MiB of hits
            std::list<hit> some = mk_hits(4), h;
            while (some.empty()) some = mk_hits(4);
            auto x = some.begin();
            for (int i = 0; i < 850000; ++i) { h.push_back(*x); h.back().start_freq_index = i; if (++x == some.end()) x = some.begin(); }
            Md c = mk_md();
            note_case(cat("scan, channel, target and cadence of ", h.size(), " hits: " + show(c)));
            auto cc = mk_cc(c, h, 3, false);
            std::map<int, std::shared_ptr<coarse_channel>> m;
            m.insert({0, std::make_shared<coarse_channel>(cc)});
            scan s(m);
            auto p = path(".cp");
            guarded("large", [&] {
                bliss::write_scan_hits_to_file(s, p, "");
                same_hits("large", h, bliss::read_scan_hits_from_file(p, "").hits());
            });
            unlink(p.c_str());
            guarded("large", [&] {
                bliss::write_coarse_channel_hits_to_capnp_file(cc, p);
                same_hits("large", h, bliss::read_coarse_channel_hits_from_capnp_file(p).hits());
            });
            unlink(p.c_str());
            guarded("large", [&] {
                bliss::write_observation_target_hits_to_capnp_files(bliss::observation_target(std::vector<scan>{s}), p);
                same_hits("large", h, bliss::read_observation_target_hits_from_capnp_files(p)._scans.at(0).hits());
            });
            unlink(p.c_str());
            guarded("large", [&] {
                bliss::write_cadence_hits_to_capnp_files(bliss::cadence(std::vector<bliss::observation_target>{bliss::observation_target(std::vector<scan>{s})}), p);
                same_hits("large", h, bliss::read_cadence_hits_from_capnp_files(p)._observations.at(0)._scans.at(0).hits());
            });
            unlink(p.c_str());
        }
        note_case("unknown format");
        bliss::write_hits_to_capnp_file(mk_hits(), path(".cp"));
        auto invalid = [&](auto &&f) { try { f(); } catch (const std::invalid_argument &) { return true; } catch (...) { } return false; };
        if (!invalid([&] { bliss::read_hits_from_file(path(".cp"), "csv"); }) || !invalid([&] { bliss::read_scan_hits_from_file(path(".cp"), "csv"); }) || !invalid([&] { bliss::read_scan_hits_from_file(path(".cp"), "CAPNP"); })) fail("format.unknown", "reading an unknown format is not rejected as an invalid argument");
        if (!throws([&] { bliss::read_hits_from_capnp_file("no/such/file.cp"); })) fail("format.missing", "reading a missing file is not rejected");
    }
    if (part("events")) {
        auto round = [&](const std::vector<bliss::event> &ev, const std::string &p) {
            guarded("events", [&] {
                bliss::write_events_to_file(ev, p);
                auto r = bliss::read_events_from_file(p);
                if (r.size() != ev.size()) { fail("events.count", cat("read ", r.size(), " events, wrote ", ev.size())); return; }
                for (size_t i = 0; i < ev.size(); ++i) same_hits("events", ev[i].hits, r[i].hits);
            });
        };
        for (it = 0; more(400, 4000);) {
            std::vector<bliss::event> ev(rng.range(0, 4) == 0 ? rng.range(5, 40) : rng.range(0, 4));
            std::string d;
            for (auto &e : ev) { e.hits = mk_hits(rng.range(0, 9) == 0 ? 60 : 4); d += show(e.hits) + "|"; }
            auto p = path(".cp");
            if (rng.range(0, 2) == 0) { bliss::write_events_to_file(std::vector<bliss::event>(9), p); d += " over an existing file"; }
            note_case("events: " + d);
            round(ev, p);
        }
        {
            std::list<hit> some = mk_hits(4), h;
            while (some.empty()) some = mk_hits(4);
            auto x = some.begin();
            for (int i = 0; i < 850000; ++i) { h.push_back(*x); h.back().start_freq_index = i; if (++x == some.end()) x = some.begin(); }
            std::vector<bliss::event> ev(3);
            ev[0].hits = some;
            ev[1].hits = h;
            ev[2].hits = some;
            note_case(cat("events of ", some.size(), ", ", h.size(), " and ", some.size(), " hits"));
            auto p = path(".cp");
            round(ev, p);
            unlink(p.c_str());
        }
        if (!throws([&] { bliss::read_events_from_file("no/such/file.cp"); })) fail("events.missing", "reading a missing file is not rejected");
        if (!throws([&] { bliss::write_events_to_file({}, "no/such/dir/file.cp"); })) fail("events.unwritable", "writing to a file that cannot be created is not rejected");
    }
    if (part("dat")) {
        for (it = 0; more(700, 10000);) {
            Sc w;
            scan s = mk_scan(w);
            if (rng.range(0, 2) == 0) {
                double sec = rng.pick<double>({0, 59.9996, 59.99949, 30, 59.999999999, 0.0004, 3599.9999});
                w.md.raj = rng.range(0, 23) + rng.range(0, 59) / 60.0 + sec / 3600;
                w.md.dej = (rng.coin() ? -1 : 1) * (rng.range(0, 89) + rng.range(0, 59) / 60.0 + rng.pick<double>({0, 59.9951, 59.9949, 30, 59.99999999}) / 3600);
                if (rng.range(0, 4) == 0) w.md.dej = rng.pick<double>({-0.5, 0.0, 0.25, -0.001, 90, -90});
                s.set_src_raj(w.md.raj); s.set_src_dej(w.md.dej);
            }
            note_case("dat: " + show(w));
            guarded("dat", [&] {
                auto p = path(".dat");
                int k = rng.range(0, 2);
                if (k == 0) bliss::write_scan_hits_to_dat_file(s, p); else if (k == 1) bliss::write_scan_hits_to_file(s, p); else bliss::write_scan_hits_to_file(s, p, "dat");
                check_dat(w, p);
            });
        }
    }
    return finish();
}
