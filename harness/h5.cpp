// bounded validation of filterbank files: shape, attributes of every stored type, regions, scans
#include "common.hpp"
#include <H5Cpp.h>
#include <core/scan.hpp>
#include <file_types/h5_filterbank_file.hpp>
#include <algorithm>
#include <limits>
using namespace hz;
using bliss::h5_filterbank_file;
using bliss::scan;

static float val(int64_t t, int64_t f) { return t * 1000 + f; }
struct Num { int kind; double v; };     // kind: index into TYPES
static const std::vector<std::pair<std::string, H5::DataType>> &types() {
    static std::vector<std::pair<std::string, H5::DataType>> t = {
        {"int64", H5::PredType::NATIVE_INT64}, {"int32", H5::PredType::NATIVE_INT32}, {"int16", H5::PredType::NATIVE_INT16}, {"int8", H5::PredType::NATIVE_INT8},
        {"uint64", H5::PredType::NATIVE_UINT64}, {"uint32", H5::PredType::NATIVE_UINT32}, {"uint16", H5::PredType::NATIVE_UINT16}, {"uint8", H5::PredType::NATIVE_UINT8},
        {"float64", H5::PredType::NATIVE_DOUBLE}, {"float32", H5::PredType::NATIVE_FLOAT}, {"big-endian int64", H5::PredType::STD_I64BE}, {"big-endian int16", H5::PredType::STD_I16BE},
        {"big-endian float64", H5::PredType::IEEE_F64BE}, {"big-endian float32", H5::PredType::IEEE_F32BE}};
    return t;
}
template <class D> static void put(D &d, const std::string &n, int kind, double v) {
    auto a = d.createAttribute(n, types()[kind].second, H5::DataSpace());
    if (types()[kind].first.find("float") == std::string::npos) { int64_t i = (int64_t)v; a.write(H5::PredType::NATIVE_INT64, &i); }
    else a.write(H5::PredType::NATIVE_DOUBLE, &v);
}
template <class D> static void put_string(D &d, const std::string &n, const std::string &s, int how) {
    if (how == 0) {
        H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE);
        const char *c = s.c_str();
        d.createAttribute(n, st, H5::DataSpace()).write(st, &c);
    } else {
        size_t len = how == 1 ? std::max<size_t>(s.size(), 1) : s.size() + how;
        H5::StrType st(H5::PredType::C_S1, len);
        st.setStrpad(how == 3 ? H5T_STR_NULLTERM : H5T_STR_NULLPAD);
        std::string b = s;
        b.resize(len, '\0');
        d.createAttribute(n, st, H5::DataSpace()).write(st, b.data());
    }
}
static void put_labels(H5::DataSet &d, const std::vector<std::string> &l, bool fixed) {
    hsize_t n = l.size();
    if (!fixed) {
        H5::StrType st(H5::PredType::C_S1, H5T_VARIABLE);
        std::vector<const char *> p;
        for (auto &x : l) p.push_back(x.c_str());
        d.createAttribute("DIMENSION_LABELS", st, H5::DataSpace(1, &n)).write(st, p.data());
    } else {
        size_t len = 1;
        for (auto &x : l) len = std::max(len, x.size());
        H5::StrType st(H5::PredType::C_S1, len);
        st.setStrpad(H5T_STR_NULLPAD);
        std::string b;
        for (auto &x : l) { std::string y = x; y.resize(len, '\0'); b += y; }
        d.createAttribute("DIMENSION_LABELS", st, H5::DataSpace(1, &n)).write(st, b.data());
    }
}
template <class F> static std::string outcome(F &&f) {
    try { f(); return "accepted"; }
    catch (const std::invalid_argument &) { return "invalid"; }
    catch (const H5::Exception &) { return "hdf5"; }
    catch (const std::exception &e) { return cat("other: ", e.what()); }
}
static std::string S(const std::vector<std::string> &v) { std::string r = "{"; for (auto &x : v) r += x + ","; return r + "}"; }

template <class T> static void read_as(h5_filterbank_file &f, const std::string &n, double want, const char *tn) {
    if (want < (double)std::numeric_limits<T>::lowest() || want > (double)std::numeric_limits<T>::max()) return;
    double expect = std::is_integral_v<T> ? std::trunc(want) : (double)(T)want;
    T got = f.read_data_attr<T>(n);
    if ((double)got != expect) fail("h5.attr", cat("attribute ", n, " read as ", tn, " gives ", (double)got, " expected ", expect));
}

static void check_shape(std::string path) {
    // every combination of labels and extents
    int64_t T = rng.range(1, 6), F = rng.range(1, 12), feeds = rng.range(0, 5) ? 1 : 2;
    std::vector<std::string> names = {"time", "feed_id", "frequency"};
    int mut = rng.range(0, 7);
    if (mut == 0) std::swap(names[0], names[2]);
    if (mut == 1) names[rng.range(0, 2)] = rng.pick<std::string>({"", "beam", "Time", "times", "freq"});
    if (mut == 2) names[rng.range(0, 2)] = names[rng.range(0, 2)];
    std::vector<hsize_t> dims = {(hsize_t)T, (hsize_t)feeds, (hsize_t)F};
    int64_t extra = 0;
    if (mut == 3) { extra = rng.range(1, 2); dims.push_back(extra); names.push_back(rng.pick<std::string>({"polarization", "time", "frequency"})); }
    if (mut == 4) names.push_back("polarization");
    if (mut == 5) names.pop_back();
    bool fixed = rng.coin();
    bool nch = rng.range(0, 9) > 0;
    int64_t nchans = rng.range(0, 6) ? F : rng.range(1, 12);
    note_case(cat("shape: extents ", T, "x", feeds, "x", F, extra ? cat("x", extra) : "", " labels ", S(names), fixed ? " fixed length" : "", " nchans ", nch ? cat(nchans) : "absent"));
    {
        H5::H5File f(path, H5F_ACC_TRUNC);
        auto ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(dims.size(), dims.data()));
        put_labels(ds, names, fixed);
        if (nch) put(ds, "nchans", 0, nchans);
    }
    // expected
    int64_t ti = -1, fe = -1, fr = -1;
    bool bad = names.size() != dims.size();
    for (size_t i = 0; !bad && i < dims.size(); ++i) {
        if (names[i] == "time" && ti < 0) ti = dims[i];
        else if (names[i] == "frequency" && fr < 0) fr = dims[i];
        else if (names[i] == "feed_id" && fe < 0) { fe = dims[i]; bad = fe != 1; }
        else bad = dims[i] != 1;
    }
    bad = bad || ti < 0 || fe < 0 || fr < 0 || !nch;
    std::vector<int64_t> want;
    if (!bad) { if (ti == nchans && fr != nchans) std::swap(ti, fr); want = {ti, fe, fr}; }
    std::vector<int64_t> got;
    h5_filterbank_file h(path);
    auto r = outcome([&] { got = h.get_data_shape(); });
    if (r != (bad ? "invalid" : "accepted")) fail("h5.shape", cat("reading the shape is ", r, ", expected ", bad ? "rejected" : "accepted"));
    else if (!bad && got != want) fail("h5.shape", cat("shape ", str(got), " expected ", str(want)));
}

static void check_attrs(std::string path) {
    int k = rng.range(0, (int)types().size() - 1);
    bool flt = types()[k].first.find("float") != std::string::npos;
    std::vector<double> vals = {0, 1, 17, 100, 127};
    if (types()[k].first.find("uint") == std::string::npos) { vals.push_back(-1); vals.push_back(-100); }
    if (types()[k].first.find("8") == std::string::npos || flt) { vals.push_back(300); vals.push_back(30000); }
    if (types()[k].first.find("64") != std::string::npos) { vals.push_back(1LL << 33); vals.push_back(3e9); }
    if (types()[k].first.find("float64") != std::string::npos) { vals.push_back(57000.123456789012); vals.push_back(-2.7939677238464355e-06); vals.push_back(16777217); }
    if (flt) { vals.push_back(0.25); vals.push_back(1234.5); vals.push_back(-2.5); }
    double v = rng.pick(vals);
    int how = rng.range(0, 3);
    std::string s = rng.pick<std::string>({"Voyager1", "x", "HIP 4436", "a much longer name of a source, to be sure", ""});
    note_case(cat("attributes: ", v, " stored as ", types()[k].first, ", string '", s, "' stored ", how == 0 ? "variable" : how == 1 ? "fixed" : how == 2 ? "zero padded" : "zero terminated"));
    {
        H5::H5File f(path, H5F_ACC_TRUNC);
        hsize_t one = 1;
        auto ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(1, &one));
        put(ds, "number", k, v);
        put_string(ds, "text", s, how);
    }
    h5_filterbank_file f(path);
    guarded("h5.attr", [&] {
        read_as<float>(f, "number", v, "float"); read_as<double>(f, "number", v, "double");
        read_as<int8_t>(f, "number", v, "int8"); read_as<int16_t>(f, "number", v, "int16"); read_as<int32_t>(f, "number", v, "int32"); read_as<int64_t>(f, "number", v, "int64");
        read_as<uint8_t>(f, "number", v, "uint8"); read_as<uint16_t>(f, "number", v, "uint16"); read_as<uint32_t>(f, "number", v, "uint32"); read_as<uint64_t>(f, "number", v, "uint64");
    });
    guarded("h5.string", [&] {
        auto got = f.read_data_attr<std::string>("text");
        if (got != s) fail("h5.string", cat("string of length ", got.size(), " '", got, "', expected '", s, "'"));
    });
    std::vector<std::pair<std::string, std::string>> rejects = {
        {"absent number", outcome([&] { f.read_data_attr<double>("absent"); })}, {"absent integer", outcome([&] { f.read_data_attr<int64_t>("absent"); })}, {"absent text", outcome([&] { f.read_data_attr<std::string>("absent"); })},
        {"absent labels", outcome([&] { f.read_data_attr<std::vector<std::string>>("absent"); })}, {"number as text", outcome([&] { f.read_data_attr<std::string>("number"); })},
        {"text as number", outcome([&] { f.read_data_attr<double>("text"); })}, {"number as labels", outcome([&] { f.read_data_attr<std::vector<std::string>>("number"); })}, {"absent of the file", outcome([&] { f.read_file_attr<std::string>("absent"); })}};
    for (auto &[what, r] : rejects) if (r != "invalid") fail("h5.reject", cat(what, " is ", r, ", expected rejected"));
}

static void check_region(std::string path) {
    int64_t T = rng.range(1, 6), F = rng.range(1, 14);
    bool extra = rng.range(0, 5) == 0, swapped = rng.range(0, 4) == 0 && F != T;
    hsize_t dims[4] = {(hsize_t)T, 1, (hsize_t)F, 1};
    note_case(cat("region of ", T, "x", F, extra ? " with an extra dimension" : "", swapped ? " with swapped labels" : ""));
    {
        H5::H5File f(path, H5F_ACC_TRUNC);
        auto ds = f.createDataSet("data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(extra ? 4 : 3, dims));
        std::vector<float> v(T * F);
        for (int64_t t = 0; t < T; ++t) for (int64_t i = 0; i < F; ++i) v[t * F + i] = val(t, i);
        ds.write(v.data(), H5::PredType::NATIVE_FLOAT);
        std::vector<std::string> l = {swapped ? "frequency" : "time", "feed_id", swapped ? "time" : "frequency"};
        if (extra) l.push_back("other");
        put_labels(ds, l, rng.coin());
        put(ds, "nchans", 0, F);
    }
    h5_filterbank_file f(path);
    for (int rep = 0; rep < 4; ++rep) {
        int64_t t0 = rng.range(0, T - 1), f0 = rng.range(0, F - 1), nt = rng.range(1, T - t0), nf = rng.range(1, F - f0);
        int mode = rng.range(0, 3);     // 0: everything 1: offset only 2: count only 3: both
        if (mode == 0 || mode == 2) t0 = f0 = 0;
        if (mode == 0 || mode == 1) { nt = T - t0; nf = F - f0; }
        std::vector<int64_t> off, cnt;
        if (mode & 1) off = {t0, 0, f0};
        if (mode & 2) cnt = {nt, 1, nf};
        cur_case += cat(" offset ", str(off), " count ", str(cnt));
        guarded("h5.region", [&] {
            auto d = f.read_data(off, cnt);
            auto m = f.read_mask(off, cnt);
            std::vector<int64_t> want = {nt, nf};
            if (d.shape() != want || m.shape() != want) { fail("h5.region", cat("shape ", str(d.shape()), " mask ", str(m.shape()), " expected ", str(want))); return; }
            if (d.dtype() != bland::ndarray::datatype::float32 || m.dtype() != bland::ndarray::datatype::uint8) { fail("h5.region", "wrong element type"); return; }
            auto *p = d.data_ptr<float>(); auto s = d.strides();
            auto *q = m.data_ptr<uint8_t>(); auto ms = m.strides();
            for (int64_t t = 0; t < nt; ++t) for (int64_t i = 0; i < nf; ++i) {
                if (p[t * s[0] + i * s[1]] != val(t0 + t, f0 + i)) { fail("h5.region", cat("(", t, ",", i, ") holds ", p[t * s[0] + i * s[1]], " expected ", val(t0 + t, f0 + i))); return; }
                if (q[t * ms[0] + i * ms[1]]) { fail("h5.region", "a mask carries flags"); return; }
            }
        });
    }
}

static void check_scan(std::string path) {
    int64_t T = rng.range(1, 5), F = rng.pick<int64_t>({1, 2, 6, 12, 16});
    int per = rng.pick<int>({0, 1, 2, 3});
    std::map<std::string, double> num;
    num["fch1"] = rng.range(1000, 9000) + 0.125; num["foff"] = rng.pick<double>({-0.25, 0.5, -2.0}); num["tsamp"] = rng.pick<double>({1, 18.25}); num["tstart"] = 57000 + rng.range(0, 99) / 64.0;
    num["src_raj"] = rng.range(0, 23) + 0.5; num["src_dej"] = rng.range(-89, 89) + 0.25; num["telescope_id"] = rng.range(0, 12); num["nchans"] = F;
    num["machine_id"] = rng.range(0, 99); num["az_start"] = rng.range(0, 359); num["za_start"] = rng.range(0, 89); num["data_type"] = rng.range(1, 3); num["nbits"] = rng.pick<double>({8, 16, 32}); num["nifs"] = rng.range(1, 3);
    static const std::set<std::string> opt = {"machine_id", "az_start", "za_start", "data_type", "nbits", "nifs"};
    std::string name = rng.pick<std::string>({"Voyager1", "x"});
    std::set<std::string> absent;
    for (auto &o : opt) if (rng.range(0, 2) == 0) absent.insert(o);
    bool missing = rng.range(0, 4) == 0;
    if (missing) { auto k = rng.pick<std::string>({"fch1", "foff", "tsamp", "tstart", "src_raj", "src_dej", "telescope_id", "nchans", "source_name"}); absent.insert(k); }
    std::string d;
    for (auto &a : absent) d += " " + a;
    int extra = rng.range(0, 3), mask = rng.range(0, 2), nodata = rng.range(0, 9) == 0, nofile = rng.range(0, 14) == 0;
    std::string cls = rng.pick<std::string>({"FILTERBANK", "OTHER", "", "{}"}), version = rng.pick<std::string>({"1.0", "2.0", "3", "{2}", "{", "100%s"});
    note_case(cat("scan of ", T, "x", F, " by ", per, " without", d, extra & 1 ? cat(" CLASS ", cls) : "", extra & 2 ? cat(" VERSION ", version) : "", mask ? " with mask" : "", nodata ? " no data" : "", nofile ? " no file" : ""));
    if (nofile) unlink(path.c_str());
    else {
        H5::H5File f(path, H5F_ACC_TRUNC);
        hsize_t dims[3] = {(hsize_t)T, 1, (hsize_t)F};
        auto ds = f.createDataSet(nodata ? "datum" : "data", H5::PredType::NATIVE_FLOAT, H5::DataSpace(3, dims));
        if (mask) f.createDataSet("mask", H5::PredType::NATIVE_UINT8, H5::DataSpace(3, dims));
        for (auto &[bit, key, v] : std::vector<std::tuple<int, std::string, std::string>>{{1, "CLASS", cls}, {2, "VERSION", version}})
            if (extra & bit) { H5::StrType t(H5::PredType::C_S1, H5T_VARIABLE); f.createAttribute(key, t, H5::DataSpace(H5S_SCALAR)).write(t, v); }
        put_labels(ds, {"time", "feed_id", "frequency"}, rng.coin());
        for (auto &[k, v] : num) if (!absent.count(k)) {
            bool whole = v == (int64_t)v;
            int kind = whole ? rng.pick<int>(v < 0 || v > 127 ? std::vector<int>{0, 1, 8, 10} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}) : rng.pick<int>({8, 8, 12});
            put(ds, k, kind, v);
        }
        if (!absent.count("source_name")) put_string(ds, "source_name", name, rng.range(0, 3));
    }
    std::shared_ptr<scan> s;
    auto r = outcome([&] { s = std::make_shared<scan>(path, per); });
    if (nofile || nodata) { if (r == "accepted") fail("h5.scan", "a scan is made of a file that is missing or holds no data"); return; }
    if (r != (missing ? "invalid" : "accepted")) { fail("h5.scan", cat("opening is ", r, ", expected ", missing ? "rejected" : "accepted")); return; }
    if (missing) return;
    auto eq = [&](const char *n, double got, double want) { if (got != want) fail("h5.scan", cat("scan reports ", n, " ", got, " expected ", want)); };
    auto dflt = [&](const char *n, double d) { return absent.count(n) ? d : num[n]; };
    eq("fch1", s->fch1(), num["fch1"]); eq("foff", s->foff(), num["foff"]); eq("tsamp", s->tsamp(), num["tsamp"]); eq("tstart", s->tstart(), num["tstart"]);
    eq("src_raj", s->src_raj(), num["src_raj"]); eq("src_dej", s->src_dej(), num["src_dej"]); eq("telescope_id", s->telescope_id(), num["telescope_id"]); eq("nchans", s->nchans(), F);
    eq("ntsteps", s->ntsteps(), T); eq("duration", s->tduration_secs(), T * num["tsamp"]);
    eq("data_type", s->data_type(), dflt("data_type", 1)); eq("nbits", s->nbits(), dflt("nbits", 32)); eq("nifs", s->nifs(), dflt("nifs", 1));
    if (s->source_name() != name) fail("h5.scan", cat("source name '", s->source_name(), "' expected '", name, "'"));
    auto optional = [&](const char *n, auto get) {
        std::string st; double v = 0;
        try { v = get(); } catch (const std::bad_optional_access &) { st = "absent"; }
        if ((st == "absent") != (absent.count(n) > 0)) fail("h5.scan", cat(n, " is ", st.empty() ? cat(v) : st, " but the file ", absent.count(n) ? "does not state it" : "states it"));
        else if (st.empty()) eq(n, v, num[n]);
    };
    optional("machine_id", [&] { return (double)s->machine_id(); }); optional("az_start", [&] { return s->az_start(); }); optional("za_start", [&] { return s->za_start(); });
    if (per > 0) eq("coarse channels", s->get_number_coarse_channels(), F / per);
    if (s->get_file_path() != path) fail("h5.scan", cat("file path '", s->get_file_path(), "'"));
}

int main() {
    init();
    H5::Exception::dontPrint();
    std::string path = cat("h", getpid(), ".h5");
    for (int it = 0; it < scale(500, 8000) && !out_of_time(); ++it) { check_shape(path); check_attrs(path); check_region(path); check_scan(path); }
    unlink(path.c_str());
    return finish();
}
