// bounded validation of the channelizer response against its definition in double precision, and of the program that writes it
#include "common.hpp"
#include <core/cadence.hpp>
#include <core/scan.hpp>
#include <preprocess/passband_static_equalize.hpp>
#include <cmath>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
namespace bliss { bland::ndarray recorded_response(int f, int M = 2048, int T = 4, std::string w = "hamming", std::string d = "cpu"); }
extern int main(int, char **) asm("bliss_generate_main");
#define gen_coarse_channel_response recorded_response
#include <bliss_generate_channelizer_response.cpp>
#undef gen_coarse_channel_response
extern "C" int generate(int, char **) asm("bliss_generate_main");
int harness(int, char **) asm("main");
using namespace hz;

static std::vector<std::array<int, 3>> asked;
static std::vector<float> answer;
bland::ndarray bliss::recorded_response(int f, int M, int T, std::string, std::string) {
    asked.push_back({f, M, T});
    answer.resize(rng.range(1, 50));
    auto r = bland::ndarray({(int64_t)answer.size()}, bland::ndarray::datatype::float32, bland::ndarray::dev::cpu);
    for (size_t i = 0; i < answer.size(); ++i) r.data_ptr<float>()[i] = answer[i] = rng.uniform();
    return r;
}
static double sinc_(double x) { return x == 0 ? 1 : std::sin(M_PI * x) / (M_PI * x); }
static std::vector<double> taps_(int n, double fc) {
    std::vector<double> h(n);
    for (int i = 0; i < n; ++i) h[i] = sinc_(fc * (i - (n - 1) / 2.0)) * (0.54 - 0.46 * std::cos(2 * M_PI * i / (n - 1)));
    return h;
}
static void fir_case() {
    int n = rng.pick<int>({2, 3, 4, 5, (int)rng.range(2, 64), (int)rng.range(64, 2000), 131});
    float fc = rng.pick<float>({1.f, .5f, .25f, 1.f / 3, 1.f / 256, 1.f / 2048, (float)(rng.uniform() * 0.999 + 0.001)});
    note_case(cat("firdes of ", n, " taps, cutoff ", fc));
    guarded("firdes", [&] {
        auto h = bliss::firdes(n, fc, "hamming");
        auto w = taps_(n, fc);
        if (h.ndim() != 1 || h.numel() != n) { fail("firdes.size", cat(h.numel(), " taps of ", n)); return; }
        for (int i = 0; i < n; ++i) {
            double g = h.data_ptr<float>()[i], tol = 4e-6 + 1e-6 * fc * n;
            if (!(std::fabs(g - w[i]) <= tol)) { fail("firdes.value", cat("tap ", i, " is ", g, ", expected ", w[i])); return; }
        }
    });
}
static double worst = 0;
static void response_case(int F, int C, int T) {
    note_case(cat("response of ", F, " fine channels of one of ", C, " coarse channels, ", T, " taps per channel"));
    int64_t N = (int64_t)F * C;
    int n = T * C;
    auto h = taps_(n, 1.0f / (float)C);
    std::vector<double> w(F, 0.0);
    std::vector<double> cs, sn;
    for (int64_t k = F / 2; k < N - F / 2; ++k) {
        int64_t f = k - N / 2;      // bins are centred: N/2 is the middle of the band
        double re = 0, im = 0, a = 2 * M_PI * (double)f / (double)N, c = 1, s = 0, dc = std::cos(a), ds = std::sin(a);
        for (int i = 0; i < n; ++i) {
            re += h[i] * c;
            im += h[i] * s;
            double t = c * dc - s * ds;
            s = c * ds + s * dc;
            c = t;
        }
        w[(k - F / 2) % F] += re * re + im * im;
    }
    double mx = *std::max_element(w.begin(), w.end());
    guarded("response", [&] {
        auto H = bliss::gen_coarse_channel_response(F, C, T);
        if (H.ndim() != 1 || H.numel() != F) { fail("response.size", cat(H.numel(), " values in ", (int)H.ndim(), " dimensions for ", F, " fine channels")); return; }
        auto g = bland::copy(H);
        double big = 0;
        for (int i = 0; i < F; ++i) {
            double v = g.data_ptr<float>()[i], d = std::fabs(v - w[i] / mx);
            big = std::max(big, v);
            worst = std::max(worst, d);
            if (!(d <= 2.5e-6)) { fail("response.value", cat("fine channel ", i, " has response ", v, ", expected ", w[i] / mx)); return; }
        }
        if (!(std::fabs(big - 1) <= 1e-6)) fail("response.normalised", cat("the largest response is ", big));
    });
}

static int run(std::vector<std::string> args) {
    std::vector<char *> av;
    args.insert(args.begin(), "bliss_generate_channelizer_response");
    for (auto &a : args) av.push_back(a.data());
    fflush(stdout);
    std::cout.flush();
    int keep = dup(1), fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    int rc = -1;
    std::exception_ptr err;
    try { rc = generate((int)av.size(), av.data()); } catch (...) { err = std::current_exception(); }
    std::cout.flush();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    close(fd);
    if (err) std::rethrow_exception(err);
    return rc;
}
static std::set<std::string> list(const std::string &d) {
    std::set<std::string> r;
    DIR *h = opendir(d.c_str());
    while (auto *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); }
    closedir(h);
    return r;
}
static void program_case() {
    std::array<int, 3> want = {1048576, 256, 12};
    std::string out = "channelizer_response.f32";
    std::vector<std::vector<std::string>> o;
    const char *sh[] = {"-f", "-M", "-N"}, *lg[] = {"--nchan-per-coarse", "--number-coarse", "--taps-per-channel"};
    for (int i = 0; i < 3; ++i) if (rng.coin()) { want[i] = rng.range(1, 1 << 20); o.push_back({rng.coin() ? sh[i] : lg[i], std::to_string(want[i])}); }
    if (rng.coin()) { out = rng.pick<std::string>({"resp.bin", "a.f32", "out/put.f32", "x"}); o.push_back({rng.coin() ? "-o" : "--output", out}); }
    if (rng.coin()) o.push_back({rng.coin() ? "-d" : "--device", rng.pick<std::string>({"cpu", "cuda:0"})});
    for (size_t i = o.size(); i > 1; --i) std::swap(o[i - 1], o[rng.range(0, i - 1)]);
    std::vector<std::string> args;
    for (auto &x : o) args.insert(args.end(), x.begin(), x.end());
    int mode = rng.range(0, 7);
    if (mode == 0) args = {rng.coin() ? "-h" : "--help"};
    if (mode == 1) args.insert(args.begin(), rng.pick<std::string>({"--what", "-x", "stray"}));
    std::string line;
    for (auto &a : args) line += " " + a;
    note_case("bliss_generate_channelizer_response" + line);
    mkdir("out", 0700);
    bool over = mode > 1 && rng.coin();
    if (over) std::ofstream(out) << std::string(rng.range(0, 900), 'x');
    auto before = list("."), inner = list("out");
    asked.clear();
    guarded("program", [&] {
        run(args);
        if (mode < 2) {
            if (list(".") != before || list("out") != inner) fail("program.usage", "a file was written though only help was due");
            return;
        }
        if (asked.size() != 1) { fail("program.once", cat("the response was computed ", asked.size(), " times")); return; }
        if (asked[0] != want) { fail("program.parameters", cat("response of ", asked[0][0], " fine, ", asked[0][1], " coarse channels and ", asked[0][2], " taps, expected ", want[0], ", ", want[1], ", ", want[2])); return; }
        before.insert(out.substr(0, out.find('/')));
        if (out.find('/') != std::string::npos) inner.insert(out.substr(out.find('/') + 1));
        if (list(".") != before || list("out") != inner) { fail("program.file", "other files than " + out + " were written"); return; }
        std::ifstream f(out, std::ios::binary);
        std::ostringstream s;
        s << f.rdbuf();
        if (s.str() != std::string((const char *)answer.data(), answer.size() * sizeof(float))) fail("program.content", cat("the file holds ", s.str().size(), " bytes, not the ", answer.size(), " values of the response"));
    });
    unlink(out.c_str());
}
int harness(int, char **) {
    init();
    for (int i = 0; i < scale(200, 3000); ++i) fir_case();
    for (int i = 0; i < scale(60, 800) && !out_of_time(); ++i) {
        int F = 2 * rng.pick<int>({1, 2, 3, (int)rng.range(1, 32), 16, 8}), C = rng.pick<int>({2, 3, 4, (int)rng.range(2, 24), 16}), T = rng.pick<int>({1, 2, std::min(F, 4), F, (int)rng.range(1, F), std::min(F, 12)});
        response_case(F, C, T);
    }
    response_case(1 << 17, 4, 2);
    response_case(3 << 12, 32, 1);
    for (int i = 0; i < scale(300, 4000) && !out_of_time(); ++i) program_case();
    if (getenv("SHOW_WORST")) fprintf(stderr, "worst %g\n", worst);
    return finish();
}
