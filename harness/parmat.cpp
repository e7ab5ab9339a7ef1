// The parallel R-MAT generator: in memory, to a file, sorted to a file; under seeded randomness and schedules.
// Linked with /repo/PaRMAT/src/*.cpp (not PaRMAT.cpp), sched.cpp and the wraps of the queue harness.
#include "PaRMAT/src/GraphGen_sorted.hpp"
#include "PaRMAT/src/GraphGen_notSorted.hpp"
#include <algorithm>
#include <atomic>
#include <cmath>
#include <ctime>
#include <fstream>
#include <iostream>
#include <random>
#include <streambuf>
#include <string>
#include <vector>
#include "common/vh.hpp"
#include "common/sched.hpp"
using namespace vh;

// ---- the generator's own randomness, made reproducible ------------------------------------------------
static std::atomic<uint64_t> gDevice{1};
static uint64_t gTime = 1;
std::random_device::result_type std::random_device::_M_getval() { return (result_type) mix64(gDevice.fetch_add(0x9e3779b97f4a7c15ull, std::memory_order_relaxed)); }
extern "C" time_t __wrap_time(time_t *t) { time_t r = (time_t) (gTime = mix64(gTime)) & 0x7fffffff; if (t) *t = r; return r; }

namespace {
struct Null : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
struct Conf {
    unsigned long long E, N, cap; double a, b, c; unsigned threads; bool self, dup, dir; int how;    // how: 0 memory, 1 file, 2 sorted file
    double d() const { return 1 - a - b - c; }
};
using Edges = std::vector<std::pair<int64_t, int64_t>>;

Conf make(Rng &g) {
    Conf k; k.how = (int) g.below(3);
    switch (g.below(6)) {
        case 0: k.a = .45; k.b = .22; k.c = .22; break;                  // the defaults of the program
        case 1: k.a = .57; k.b = .19; k.c = .19; break;
        case 2: k.a = k.b = k.c = .25; break;
        case 3: k.a = .55; k.b = .10; k.c = .25; break;
        case 4: k.a = .15; k.b = .30; k.c = .15; break;
        default: { double s = 0, v[4]; for (double &x : v) s += x = .15 + g.unit(); k.a = v[0] / s; k.b = v[1] / s; k.c = v[2] / s; }
    }
    k.threads = g.chance(1, 3) ? 1 : 1 + (unsigned) g.below(g.chance(1, 4) ? 16 : 8);
    k.self = g.chance(1, 2); k.dup = g.chance(1, 2); k.dir = g.chance(2, 3);
    k.E = g.chance(1, 4) ? 1 + g.below(12) : g.chance(1, 3) ? 1 + g.below(400) : 1 + g.below(opt().thorough && g.chance(1, 4) ? 30000 : 8000);
    bool split = g.chance(1, 2);                                         // more edges than one part may hold
    if (split) k.E += 1000;
    // few edges: rounding may send all of them into one part of every division
    double hot = k.E < 200 ? 1 : std::max(std::max(k.a, k.b), std::max(k.c, k.d()));
    if (k.dup && !split && g.chance(1, 3)) {                             // multigraphs may be dense
        k.N = 2 + g.below(40);
        // but a single vertex left to one worker cannot take an edge that is no self loop
        if ((!k.self || !k.dir) && 3 * k.E < (k.N - 1) * (k.N - 1)) k.threads = 1;
    }
    else {
        // sparse enough for every part to be filled without collisions dominating: the densest part after L levels
        int L = split ? (k.how == 2 ? 4 : 5) : 4;
        double dens = k.dup ? .02 : .002;
        double cells = (double) k.E / dens * std::pow(std::max(1.0, 4 * (hot + .015)), L);
        unsigned long long n = 64; while ((double) n * n < cells) n = n * 5 / 4 + 1;
        if (g.chance(1, 2)) { unsigned long long p = 1; while (p < n) p *= 2; n = p; }
        else n += g.below(n);
        if (g.chance(1, 10)) n *= 1000;
        k.N = std::min<unsigned long long>(n, 1ull << 31);
    }
    if (!split) { unsigned long long o[] = {k.E, k.E + 1, 2 * k.E, 1ull << 40}; k.cap = o[g.below(4)]; }
    else {
        // keeps the number of levels below L: part <= E * hot^level (sorted: columns of parts)
        double col = std::max(k.a + k.c, 1 - k.a - k.c);
        double f = k.how == 2 ? std::pow(col + .02, 3) : std::pow(hot + .01, 3);
        k.cap = std::max<unsigned long long>(1, (unsigned long long) (k.E * (f + g.unit() * (1 - f))) + 1);
    }
    return k;
}
Edges generate(const Conf &k, const std::string &path, bool &formatted) {
    Edges r; formatted = true;
    if (k.how == 0) return GraphGen_notSorted::GenerateGraph(k.E, k.N - 1, k.a, k.b, k.c, k.threads, k.cap, k.self, k.dup, k.dir);
    std::ofstream o(path, std::ios::trunc);
    if (k.how == 1) GraphGen_notSorted::GenerateGraph(k.E, k.N - 1, k.a, k.b, k.c, k.threads, o, k.cap, k.self, k.dup, k.dir);
    else GraphGen_sorted::GenerateGraph(k.E, k.N - 1, k.a, k.b, k.c, k.threads, o, k.cap, k.self, k.dup, k.dir);
    o.close();
    FILE *f = fopen(path.c_str(), "r"); if (!f) { formatted = false; return r; }
    char line[128];
    while (fgets(line, sizeof line, f)) {
        unsigned long long s, d; int at = 0;
        if (sscanf(line, "%llu\t%llu%n", &s, &d, &at) != 2 || line[at] != '\n' || line[at + 1]) { formatted = false; break; }
        r.push_back({(int64_t) s, (int64_t) d});
    }
    fclose(f);
    return r;
}
void run(long idx, Rng &g, const std::string &path) {
    Conf k = make(g);
    const char *how[] = {"memory", "file", "sorted-file"};
    setCase("idx=%ld alg=parmat-%s edges=%llu vertices=%llu a=%.3f b=%.3f c=%.3f threads=%u capacity=%llu%s%s%s", idx, how[k.how], k.E, k.N, k.a, k.b, k.c, k.threads, k.cap,
            k.self ? "" : " noself", k.dup ? "" : " nodup", k.dir ? "" : " undirected");
    gDevice = g.next(); gTime = g.next();
    sched::reset(g.next(), (int) g.below(4));
    sched::enter(99);                   // the workers get their own numbers
    bool formatted; Edges e = generate(k, path, formatted);
    std::string K = std::string("parmat-") + how[k.how];
    if (!formatted) return fail(K + ":format", "the file does not consist of lines 'source TAB destination'");
    if (e.size() != k.E) fail(K + ":count", "%zu edges for %llu requested", e.size(), k.E);
    size_t out = 0, loops = 0, upper = 0, unsorted = 0;
    for (size_t i = 0; i < e.size(); i++) {
        auto [s, d] = e[i];
        out += s < 0 || d < 0 || (uint64_t) s >= k.N || (uint64_t) d >= k.N;
        loops += s == d; upper += s > d;
        unsorted += i && e[i - 1].first > s;
    }
    if (out) fail(K + ":range", "%zu edges leave the vertex range", out);
    if (!k.self && loops) fail(K + ":self", "%zu self loops although excluded", loops);
    if (!k.dir && upper) fail(K + ":undirected", "%zu edges name the larger vertex first", upper);
    if (k.how == 2 && unsorted) fail(K + ":order", "%zu descents in the source column of the sorted output", unsorted);
    size_t dups = 0;
    { Edges s(e); std::sort(s.begin(), s.end()); for (size_t i = 1; i < s.size(); i++) dups += s[i] == s[i - 1]; }
    if (!k.dup && dups) fail(K + ":duplicate", "%zu duplicates although excluded", dups);
    // Marginal distribution over halves and quarters of each axis (parts and recursion choose: low half of the
    // sources a+c, low half of the destinations a+b), within sampling error, rounding and the per-part noise.
    if (k.dir && k.dup && k.self && e.size() >= 2000 && k.N >= 64) {
        double n = (double) e.size(), top = (double) (k.N - 1);
        for (int axis = 0; axis < 2; axis++) for (int lev = 1; lev <= 2; lev++) {
            double p1 = axis ? k.a + k.b : k.a + k.c, p = std::pow(p1, lev), cut = top / (1 << lev);
            double below = 0, upto = 0;
            for (auto &x : e) { double v = (double) (axis ? x.second : x.first); below += v < cut - 1; upto += v <= cut + 1; }
            double tol = .012 * 2 * lev + 6 * std::sqrt(p * (1 - p) / n) + 4 / n;
            if (below / n > p + tol || upto / n < p - tol)
                fail(K + ":distribution", "share of %s in the low 1/%d is %.4f..%.4f, expected %.4f", axis ? "destinations" : "sources", 1 << lev, below / n, upto / n, p);
        }
        count("distributions");
        // every destination and source range is reachable, including the last vertex
    }
    if (k.dir && k.dup && k.self && k.N <= 12 && e.size() >= 4000 && std::min(std::min(k.a, k.b), std::min(k.c, k.d())) > .1) {
        std::vector<int> hs(k.N), hd(k.N); for (auto &x : e) if (!out) hs[x.first]++, hd[x.second]++;
        for (size_t v = 0; !out && v < k.N; v++) if (!hs[v] || !hd[v]) fail(K + ":coverage", "vertex %zu is never a %s among %zu edges", v, hs[v] ? "destination" : "source", e.size());
        count("coverages");
    }
    count("edges", e.size()); count("duplicates.allowed", dups); count("loops", loops);
    maxi("threads", k.threads); maxi("edges", e.size());
    seen("interleavings", sched::signature());
    evaluation(mix64(k.E * 31 + k.N) ^ mix64(idx), k.E > 2 && (k.threads > 1 || k.cap < k.E));
}
}
int main(int argc, char **argv) {
    vh::init(argc, argv); sched::autoIds();
    Null null; auto *old = std::cout.rdbuf(&null);
    std::string path = (opt().out.empty() ? std::string("/tmp/parmat") : opt().out) + ".edges";
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        run(idx, g, path);
        if (idx % 300 < 3) sample(currentCase());
    }
    unlink(path.c_str());
    std::cout.rdbuf(old);
    count("schedule.points", sched::points()); count("schedule.delays", sched::delays());
    return vh::finish();
}
