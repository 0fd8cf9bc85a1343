// bounded validation of bliss_hits_to_dat: the real main and option parser on real hit files
#include "common.hpp"
#include <core/scan.hpp>
#include <file_types/cpnp_files.hpp>
#include <file_types/dat_file.hpp>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <sys/stat.h>
extern int main(int, char **) asm("bliss_hits_to_dat_main");
#include <bliss_hits_to_dat.cpp>
extern "C" int convert(int, char **) asm("bliss_hits_to_dat_main");
int harness(int, char **) asm("main");
using namespace hz;
using bliss::coarse_channel;
using bliss::hit;
using bliss::scan;

static std::string captured;
static int run(std::vector<std::string> args) {
    std::vector<char *> av;
    args.insert(args.begin(), "bliss_hits_to_dat");
    for (auto &a : args) av.push_back(a.data());
    fflush(stdout);
    std::cout.flush();
    int keep = dup(1), fd = open("convert.out", O_RDWR | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 1);
    int rc = -1;
    std::exception_ptr err;
    try { rc = convert((int)av.size(), av.data()); } catch (...) { err = std::current_exception(); }
    std::cout.flush();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    captured.clear();
    lseek(fd, 0, SEEK_SET);
    char b[4096];
    for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) captured.append(b, n);
    close(fd);
    unlink("convert.out");
    if (err) std::rethrow_exception(err);
    return rc;
}
static std::string slurp(const std::string &p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static std::set<std::string> list(const std::string &d) {
    std::set<std::string> r;
    DIR *h = opendir(d.c_str());
    while (auto *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") r.insert(n); }
    closedir(h);
    return r;
}
static scan mkscan(int nch, int &total) {
    std::map<int, std::shared_ptr<coarse_channel>> m;
    double fch1 = 1000 + rng.uniform() * 8000;
    total = 0;
    for (int i = 0; i < nch; ++i) {
        coarse_channel cc(fch1 - i, -1. / 1024, 0, 32, 1024, 16, 1, "HIP 1", 12.5, 3.25, 6, 18.25, 58000.5, 1, 0.0, 0.0, i);
        std::list<hit> l;
        for (int n = rng.range(0, 5); n > 0; --n) {
            hit h{};
            h.start_freq_index = rng.range(0, 1023); h.start_freq_MHz = fch1 + rng.uniform(); h.start_time_sec = 5e9 + rng.uniform(); h.duration_sec = 290; h.rate_index = rng.range(0, 99);
            h.drift_rate_Hz_per_sec = rng.uniform() - 0.5; h.power = rng.uniform() * 100; h.time_span_steps = 16; h.snr = rng.uniform() * 50; h.bandwidth = rng.uniform() * 9; h.binwidth = rng.range(1, 9); h.coarse_channel_number = i;
            l.push_back(h);
            total++;
        }
        cc.set_hits(l);
        m.insert({i, std::make_shared<coarse_channel>(cc)});
    }
    return scan(m);
}
static int count(const std::string &s, const std::string &x) { int n = 0; for (size_t i = s.find(x); i != std::string::npos; i = s.find(x, i + 1)) n++; return n; }

static void one_case() {
    mkdir("in.put", 0700);
    std::string stem = rng.pick<std::string>({"hits", "obs.0001", "a.b.c", "x"}), base = stem + rng.pick<std::string>({".cp", ".capnp", ".hits"}), input = (rng.coin() ? "in.put/" : "") + base;
    int total;
    scan s = mkscan(rng.range(1, 3), total);
    bliss::write_scan_hits_to_capnp_file(s, input);
    bliss::write_scan_hits_to_dat_file(bliss::read_scan_hits_from_capnp_file(input), "expected.table");
    std::string want = slurp("expected.table");
    unlink("expected.table");
    int mode = rng.range(0, 9);
    std::vector<std::string> args = {rng.coin() ? "-i" : "--input", input}, o;
    std::string out = stem + ".dat";
    bool unread = mode == 8, usage = mode == 6 || mode == 7, screen = mode == 4 || mode == 5;
    if (mode < 3) out = rng.pick<std::string>({"res.dat", "in.put/table", "out", "res.txt"});
    if (screen) out = rng.pick<std::string>({"-", "stdout"});
    if (mode < 3 || screen) { o = {rng.coin() ? "-o" : "--output", out}; if (rng.coin()) args.insert(args.end(), o.begin(), o.end()); else args.insert(args.begin(), o.begin(), o.end()); }
    if (mode == 6) args = rng.coin() ? std::vector<std::string>{"-h"} : rng.coin() ? std::vector<std::string>{"--help"} : std::vector<std::string>{};
    if (mode == 7) args = rng.range(0, 2) == 0 ? std::vector<std::string>{"-o", "res.dat", "-i", input, "--what"} : rng.coin() ? std::vector<std::string>{"-o", "res.dat"} : std::vector<std::string>{"-i", input, "-x"};
    if (unread) args[std::find(args.begin(), args.end(), input) - args.begin()] = "in.put/nothing.here";
    bool over = mode < 4 && rng.coin();      // the output exists already
    if (over) std::ofstream(out) << "old contents " << std::string(rng.range(0, 9000), 'x');
    std::string line;
    for (auto &a : args) line += " " + a;
    note_case(cat("bliss_hits_to_dat", line, " (", total, " hits", over ? ", output exists" : "", ")"));
    auto before = list("."), inner = list("in.put");
    std::string src = slurp(input);
    if (unread) {
        if (([&] { try { run(args); return true; } catch (...) { return false; } })() && captured.empty()) fail("convert.unreadable", "an unreadable input was passed over in silence");
        if (list(".") != before || list("in.put") != inner) fail("convert.unreadable", "a table was written for an input that cannot be read");
    } else guarded("convert", [&] {
        int rc = run(args);
        if (rc) fail("convert.exit", cat("returns ", rc));
        if (usage || screen) {
            if (list(".") != before || list("in.put") != inner) fail("convert.nothing", "a file was written");
            if (usage && captured.find("--output") == std::string::npos) fail("convert.usage", "the usage was not shown");
            if (screen && (captured.find(cat("Got ", total, " hits")) == std::string::npos || count(captured, "\n") < 1 + total)) fail("convert.screen", cat("printed: ", captured.substr(0, 300)));
            return;
        }
        auto got = list("."), gin = list("in.put");
        (out.find('/') == std::string::npos ? before : inner).insert(out.substr(out.rfind('/') == std::string::npos ? 0 : out.rfind('/') + 1));
        if (got != before || gin != inner) { fail("convert.name", cat("expected exactly the table ", out, " to be written")); return; }
        auto have = slurp(out);
        if (have != want) fail("convert.table", cat("the table differs from that of the scan in the file: ", have.substr(0, 200), " expected ", want.substr(0, 200)));
    });
    if (slurp(input) != src) fail("convert.input", "the input file changed");
    for (auto &f : list("in.put")) unlink(("in.put/" + f).c_str());
    rmdir("in.put");
    for (auto f : std::vector<std::string>{input, out, stem + ".dat", "res.dat"}) if (f != "-") unlink(f.c_str());
}
int harness(int, char **) {
    init();
    for (int it = 0; it < scale(400, 4000) && !out_of_time(); ++it) one_case();
    return finish();
}
