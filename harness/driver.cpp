// bounded validation of the command line driver: the real main and the real option parser, scans of real files, and stand-ins for
// the stages that record what they were applied to and with which parameters
#include "common.hpp"
#include <H5Cpp.h>
#include <sys/stat.h>
#include <fcntl.h>
extern int main(int, char **) asm("bliss_find_hits_main");
#include <bliss_find_hits.cpp>
extern "C" int driver(int, char **) asm("bliss_find_hits_main");
int harness(int, char **) asm("main");
using namespace hz;
using bliss::observation_target;
using bliss::scan;

static std::vector<std::string> calls;          // every stage as it was called
struct Written { std::string history, path, format; double fch1; int64_t nchans; bool on_cpu; size_t hits; };
static std::vector<Written> writes;
static int nhits = 0;
static int off_cpu = 0;                         // scans that were not on the device asked for when a stage was called
static std::string refuse;                       // stage that fails

static observation_target mark(observation_target t, const std::string &what) {
    calls.push_back(what);
    for (auto &s : t._scans) off_cpu += !(s.device() == bland::ndarray::dev::cpu);
    for (auto &s : t._scans) s.set_source_name(s.source_name() + "|" + what);
    return t;
}
namespace bliss {
observation_target normalize(observation_target t) { return mark(t, "normalize"); }
observation_target equalize_passband_filter(observation_target t, std::string_view p, bland::ndarray::datatype) { return mark(t, cat("equalize ", std::string(p))); }
observation_target flag_filter_rolloff(observation_target t, float r) { return mark(t, cat("rolloff ", r)); }
observation_target flag_magnitude(observation_target t, float r) { return mark(t, cat("magnitude ", r)); }
observation_target flag_magnitude(observation_target t) { return mark(t, "magnitude"); }
observation_target flag_spectral_kurtosis(observation_target t, float l, float h, float d) { return mark(t, cat("kurtosis ", l, " ", h, " ", d)); }
observation_target flag_sigmaclip(observation_target t, int n, float l, float h) { return mark(t, cat("sigmaclip ", n, " ", l, " ", h)); }
observation_target estimate_noise_power(observation_target t, noise_power_estimate_options o) { return mark(t, cat("noise ", (int)o.estimator_method, " ", o.masked_estimate)); }
observation_target integrate_drifts(observation_target t, integrate_drifts_options o) { return mark(t, cat("integrate ", o.desmear, " ", o.low_rate, " ", o.high_rate, " ", o.rate_step_size)); }
static observation_target searched(observation_target t, const hit_search_options &o) {
    t = mark(t, cat("search ", (int)o.method, " ", o.snr_threshold, " ", o.neighbor_l1_dist));
    for (auto &s : t._scans) {
        s.add_coarse_channel_transform([](coarse_channel c) { std::list<hit> l(nhits); for (auto &h : l) h = hit{}; c.set_hits(l); return c; });
        s.read_coarse_channel(0);
    }
    return t;
}
observation_target hit_search(observation_target t, hit_search_options o) { return searched(t, o); }
observation_target filter_hits(observation_target t, filter_options o) { return mark(t, cat("filter ", o.filter_zero_drift)); }
void write_scan_hits_to_file(scan s, std::string_view p, std::string f) { writes.push_back({s.source_name(), std::string(p), f, s.fch1(), s.nchans(), s.device() == bland::ndarray::dev::cpu, s.hits().size()}); }
}

template <class D> static void put(D &d, const std::string &n, double v) { d.createAttribute(n, H5::PredType::NATIVE_DOUBLE, H5::DataSpace()).write(H5::PredType::NATIVE_DOUBLE, &v); }
static const int64_t PER = 16;
static void mkfile(const std::string &path, const std::string &name, int64_t F, double fch1) {
    H5::H5File f(path, H5F_ACC_TRUNC);
    hsize_t dims[3] = {2, 1, (hsize_t)F};
    auto ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(3, dims));
    hsize_t n = 3;
    H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE);
    const char *l[3] = {"time", "feed_id", "frequency"}, *c = name.c_str();
    ds.createAttribute("DIMENSION_LABELS", st, H5::DataSpace(1, &n)).write(st, l);
    ds.createAttribute("source_name", st, H5::DataSpace()).write(st, &c);
    std::map<std::string, double> num = {{"fch1", fch1}, {"foff", -0.5}, {"tsamp", 1}, {"tstart", 57000}, {"src_raj", 1}, {"src_dej", 2}, {"telescope_id", 6}, {"machine_id", 1}, {"nchans", (double)F}, {"az_start", 0}, {"za_start", 0}};
    for (auto &[k, v] : num) put(ds, k, v);
}
struct Opt { std::vector<std::string> args; };

static std::string captured;
static int run(std::vector<std::string> args) {
    std::vector<char *> av;
    args.insert(args.begin(), "bliss_find_hits");
    for (auto &a : args) av.push_back(a.data());
    calls.clear(); off_cpu = 0;
    writes.clear();
    fflush(stdout);
    std::cout.flush();
    int keep = dup(1), fd = open("driver.out", O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    int rc = -1;
    std::exception_ptr err;
    try { rc = driver((int)av.size(), av.data()); } catch (...) { err = std::current_exception(); }
    std::cout.flush();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    captured.clear();
    lseek(fd, 0, SEEK_SET);
    char b[4096];
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) captured.append(b, n);
    close(fd);
    unlink("driver.out");
    if (err) std::rethrow_exception(err);
    return rc;
}
static std::string join(const std::vector<std::string> &v, const char *sep) { std::string r; for (auto &x : v) r += (r.empty() ? "" : sep) + x; return r; }
static int count(const std::string &s, const std::string &x) { int n = 0; for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) n++; return n; }

static void one_case() {
    int nf = rng.range(1, 3);
    int64_t chans = rng.range(2, 4);
    std::vector<std::string> files;
    std::vector<double> fch1;
    mkdir("in.put", 0700);
    static const std::vector<std::string> nm = {"a", "obs.0001", "obs.0002", "obs", "x.y.z"};
    for (int i = 0; i < nf; ++i) {
        auto n = nm[std::min<int64_t>(4, rng.range(0, 1) + 2 * i)];
        files.push_back(cat(rng.coin() ? "in.put/" : "", n, rng.pick<std::string>({".h5", ".fil", ".hdf5"})));
        fch1.push_back(1000 + 100 * i);
        mkfile(files.back(), cat("src", i), chans * PER, fch1[i]);
    }
    nhits = rng.range(0, 3);
    std::vector<std::vector<std::string>> opts;
    auto maybe = [&](int odds) { return rng.range(0, odds - 1) == 0; };
    int only = rng.range(0, 24);     // half of the time a single option differs from its default
    bool single = rng.coin();
    int id = 0;
    auto use = [&](int odds = 3) { bool r = single ? id == only : maybe(odds); id++; return r; };
    auto eighths = [&](double lo, double hi) { return rng.range((int)(lo * 8), (int)(hi * 8)) / 8.0; };
    int64_t cc = 0, num = 1;
    if (use()) { cc = rng.range(0, chans - 1); opts.push_back({rng.coin() ? "-c" : "--coarse-channel", cat(cc)}); }
    if (use()) { num = rng.range(1, chans - cc); opts.push_back({"--number-coarse", cat(num)}); }
    opts.push_back({"--nchan-per-coarse", cat(PER)});
    std::string taps;
    if (use(4)) { taps = "response.bin"; opts.push_back({rng.coin() ? "-e" : "--equalizer-channel", taps}); }
    bool nodev = rng.range(0, 15) == 0;
    if (!nodev) opts.push_back({rng.coin() ? "-d" : "--device", "cpu"});
    bool desmear = true;
    if (use()) { desmear = rng.coin(); opts.push_back({desmear ? "--desmear" : "--nodesmear"}); }
    int lo = -500, hi = 500, step = 1;
    if (use()) { lo = rng.range(-900, 100); opts.push_back({rng.coin() ? "-m" : "--min-rate", cat(lo)}); }
    if (use()) { hi = rng.range(101, 900); opts.push_back({rng.coin() ? "-M" : "--max-rate", cat(hi)}); }
    if (use()) { step = rng.range(1, 9); opts.push_back({rng.coin() ? "-rs" : "--rate-step", cat(step)}); }
    double roll = .25, skl = .25, skh = 50, skd = 2, scl = 3, sch = 4;
    int sci = 5;
    if (use()) { roll = eighths(0, .5); opts.push_back({"--filter-rolloff", cat(roll)}); }
    if (use()) { sci = rng.range(1, 9); opts.push_back({"--sigmaclip-iters", cat(sci)}); }
    if (use()) { scl = eighths(1, 9); opts.push_back({"--sigmaclip-low", cat(scl)}); }
    if (use()) { sch = eighths(1, 9); opts.push_back({"--sigmaclip-high", cat(sch)}); }
    if (use()) { skl = eighths(0, 1); opts.push_back({"--sk-low", cat(skl)}); }
    if (use()) { skh = eighths(2, 90); opts.push_back({"--sk-high", cat(skh)}); }
    if (use()) { skd = eighths(1, 5); opts.push_back({"--sk-d", cat(skd)}); }
    auto method = bliss::hit_search_methods::CONNECTED_COMPONENTS;
    if (use()) { bool l = rng.coin(); if (l) method = bliss::hit_search_methods::LOCAL_MAXIMA; opts.push_back({l ? "--local-maxima" : "--connected-components"}); }
    double snr = 10;
    int dist = 7;
    if (use()) { snr = eighths(2, 30); opts.push_back({rng.coin() ? "-s" : "--snr", cat(snr)}); }
    if (use()) { dist = rng.range(1, 20); opts.push_back({"--distance", cat(dist)}); }
    std::string path, fmt;
    std::vector<std::string> output;      // comes last: the parser takes what follows for the format
    if (maybe(2)) {
        path = rng.pick<std::string>({"out.capnp", "hits.dat", "-", "stdout", "res"});
        std::vector<std::string> o = {rng.coin() ? "-o" : "--output", path};
        if (maybe(2)) { fmt = rng.pick<std::string>({"capnp", "dat"}); o.push_back(fmt); }
        output = o;
    }
    bool bad = rng.range(0, 19) == 0, help = rng.range(0, 19) == 0;
    for (size_t i = opts.size(); i > 1; --i) std::swap(opts[i - 1], opts[rng.range(0, i - 1)]);
    std::vector<std::string> args = files;
    for (auto &o : opts) args.insert(args.end(), o.begin(), o.end());
    args.insert(args.end(), output.begin(), output.end());
    bad = bad && output.empty();
    if (bad) args.push_back(rng.pick<std::string>({"-d", "-c", "--sk-low"}));
    if (help) args = {rng.coin() ? "-h" : "--help"};
    note_case(cat("bliss_find_hits ", join(args, " "), " (", nhits, " hits per scan)"));
    // expected
    std::vector<std::string> want;
    want.push_back("normalize");
    want.push_back(taps.empty() ? cat("rolloff ", (float)roll) : cat("equalize ", taps));
    want.push_back(cat("kurtosis ", (float)skl, " ", (float)skh, " ", (float)skd));
    want.push_back(cat("sigmaclip ", sci, " ", (float)scl, " ", (float)sch));
    want.push_back(cat("noise ", (int)bliss::noise_power_estimator::STDDEV, " ", true));
    want.push_back(cat("integrate ", desmear, " ", lo, " ", hi, " ", step));
    want.push_back(cat("search ", (int)method, " ", (float)snr, " ", dist));
    want.push_back(cat("filter ", true));
    if (help || bad) {
        int rc = -1;
        guarded("driver.usage", [&] { rc = run(args); });
        if (!calls.empty() || !writes.empty()) fail("driver.usage", "the pipeline ran instead of showing how to use the program");
        else if (rc) fail("driver.usage", cat("showing the usage returns ", rc));
    } else if (nodev) {
        std::string what;
        try { run(args); } catch (const std::exception &e) { what = e.what(); }
        if (what.find("cuda") == std::string::npos) fail("driver.device", cat("without a device: '", what, "', expected the default cuda device to be refused here"));
    } else guarded("driver", [&] {
        int rc = run(args);
        if (rc) fail("driver.exit", cat("returns ", rc));
        if (calls != want) { fail("driver.stages", cat("stages ran: ", join(calls, "; "), "; expected: ", join(want, "; "))); return; }
        if (path == "-" || path == "stdout") {
            if (!writes.empty()) fail("driver.output", "a file was written although the screen was asked for");
            if (count(captured, cat("scan has ", nhits * num, " hits")) != nf) fail("driver.output", cat("the hits of ", nf, " scans were not printed: ", captured));
            return;
        }
        if ((int)writes.size() != nf) { fail("driver.output", cat(writes.size(), " files written for ", nf, " scans")); return; }
        for (int i = 0; i < nf; ++i) {
            auto &w = writes[i];
            std::string base = files[i].substr(files[i].rfind('/') == std::string::npos ? 0 : files[i].rfind('/') + 1);
            std::string p = path.empty() ? base.substr(0, base.rfind('.')) + ".capnp" : path, f = path.empty() ? "capnp" : fmt;
            if (w.history != cat("src", i, "|", join(want, "|"))) fail("driver.scan", cat("scan ", i, " was written after: ", w.history));
            if (w.path != p) fail("driver.name", cat("hits of ", files[i], " written to '", w.path, "' expected '", p, "'"));
            if (w.format != f) fail("driver.format", cat("hits of ", files[i], " written as '", w.format, "' expected '", f, "'"));
            if (w.fch1 != fch1[i] - 0.5 * PER * cc || w.nchans != num * PER) fail("driver.channels", cat("searched ", w.nchans, " channels from ", w.fch1, " expected ", num * PER, " from ", fch1[i] - 0.5 * PER * cc));
            if (!w.on_cpu || off_cpu) fail("driver.device", "the device asked for was not used");
            if ((int)w.hits != nhits * num) fail("driver.hits", cat(w.hits, " hits written, expected ", nhits * num));
        }
    });
    for (auto &f : files) unlink(f.c_str());
    rmdir("in.put");
}

int harness(int, char **) {
    init();
    H5::Exception::dontPrint();
    for (int it = 0; it < scale(600, 6000) && !out_of_time(); ++it) one_case();
    return finish();
}
