// Common harness runtime: seeded randomness, command line, evidence counters,
// violation reporting, "current case" black box that survives a crash.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <fcntl.h>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vh {

inline uint64_t mix64(uint64_t z) {
    z += 0x9e3779b97f4a7c15ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(mix64(seed ^ 0xabcdef1234567ull)) {}
    uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // inclusive
    int64_t range(int64_t lo, int64_t hi) { return (int64_t) ((uint64_t) lo + below((uint64_t) hi - (uint64_t) lo + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
};

struct Options {
    uint64_t seed = 1;
    long cases = 0;
    long from = 0;
    long only = -1;
    bool thorough = false;
    std::string out, cur, alg, mode;
    int threads = 0;
    std::map<std::string, std::string> extra;
    long num(const std::string &k, long d) const {
        auto it = extra.find(k);
        return it == extra.end() ? d : atol(it->second.c_str());
    }
    bool selected(long i) const { return only < 0 || only == i; }
};

inline Options &opt() { static Options o; return o; }

// ---- crash black box ------------------------------------------------------
inline char *&curBuf() { static char *p = nullptr; return p; }
inline void setCase(const char *fmt, ...) {
    static char fallback[512];
    char *b = curBuf() ? curBuf() : fallback;
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(b, 500, fmt, ap);
    va_end(ap);
    if (n > 499) n = 499;
    b[n] = '\n'; b[n + 1] = 0;
}
inline std::string currentCase() {
    std::string s = curBuf() ? std::string(curBuf()) : std::string();
    while (!s.empty() && (s.back() == '\n')) s.pop_back();
    return s;
}

// ---- evidence ---------------------------------------------------------------
struct Stats {
    std::map<std::string, uint64_t> counters;
    std::map<std::string, uint64_t> maxima;
    std::map<std::string, std::set<uint64_t>> distinct;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> sigs;      // distinct non-trivial cases
    uint64_t evaluations = 0, failures = 0;
    std::map<std::string, int> failByKey;
    std::mutex mu;
};
inline Stats &st() { static Stats s; return s; }

inline void count(const std::string &k, uint64_t n = 1) { st().counters[k] += n; }
inline void maxi(const std::string &k, uint64_t n) { auto &m = st().maxima[k]; if (n > m) m = n; }
inline void seen(const std::string &k, uint64_t v) { auto &d = st().distinct[k]; if (d.size() < 200000) d.insert(v); }
inline void evaluation(uint64_t sig, bool nontrivial) {
    st().evaluations++;
    if (nontrivial) st().sigs.insert(sig);
}
inline void sample(const std::string &s) { if (st().samples.size() < 8) st().samples.push_back(s); }

inline std::string jsonEscape(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else if (c >= 0x80) o += '?';
        else o += c;
    }
    return o;
}

// key: short stable identification of the failing thing (used for known findings)
inline void fail(const std::string &key, const char *fmt, ...) {
    char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    std::lock_guard<std::mutex> g(st().mu);
    st().failures++;
    if (st().failByKey[key]++ < 3) {
        printf("FAIL key=%s case=[%s] detail=%s\n", key.c_str(), currentCase().c_str(), b);
        fflush(stdout);
    }
}

inline void writeStats() {
    auto &s = st();
    if (opt().out.empty()) return;
    FILE *f = fopen(opt().out.c_str(), "w");
    if (!f) return;
    fprintf(f, "{\"evaluations\":%llu,\"distinct_nontrivial\":%llu,\"failures\":%llu,\"counters\":{",
            (unsigned long long) s.evaluations, (unsigned long long) s.sigs.size(), (unsigned long long) s.failures);
    bool first = true;
    for (auto &c : s.counters) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long) c.second); first = false; }
    fprintf(f, "},\"maxima\":{");
    first = true;
    for (auto &c : s.maxima) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jsonEscape(c.first).c_str(), (unsigned long long) c.second); first = false; }
    fprintf(f, "},\"distinct\":{");
    first = true;
    for (auto &c : s.distinct) { fprintf(f, "%s\"%s\":%zu", first ? "" : ",", jsonEscape(c.first).c_str(), c.second.size()); first = false; }
    fprintf(f, "},\"samples\":[");
    first = true;
    for (auto &c : s.samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jsonEscape(c).c_str()); first = false; }
    fprintf(f, "],\"complete\":true}\n");
    fclose(f);
}

inline void init(int argc, char **argv) {
    auto &o = opt();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") o.seed = strtoull(v.c_str(), 0, 10);
        else if (k == "--cases") o.cases = atol(v.c_str());
        else if (k == "--from") o.from = atol(v.c_str());
        else if (k == "--only") o.only = atol(v.c_str());
        else if (k == "--tier") o.thorough = v == "thorough";
        else if (k == "--out") o.out = v;
        else if (k == "--cur") o.cur = v;
        else if (k == "--alg") o.alg = v;
        else if (k == "--mode") o.mode = v;
        else if (k == "--threads") o.threads = atoi(v.c_str());
        else o.extra[k.substr(2)] = v;
    }
    if (!o.cur.empty()) {
        int fd = open(o.cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ftruncate(fd, 512) == 0) {
            void *p = mmap(nullptr, 512, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) curBuf() = (char *) p;
        }
        if (fd >= 0) close(fd);
    }
    if (!curBuf()) curBuf() = (char *) calloc(1, 512);
    setvbuf(stdout, nullptr, _IOLBF, 0);
}

inline int finish() {
    writeStats();
    setCase("finished");
    return st().failures ? 3 : 0;
}

} // namespace vh
