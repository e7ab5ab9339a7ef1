// The serial graph generators: GEN 1 R-MAT, 2 random (G(n,p), G(n,m)), 3 SSCA2. Linked with that generator's C
// sources (without drive.c) and the SPRNG sources; --wrap=init_rng,get_rn_dbl,get_rn_int substitutes seeded streams.
#include <algorithm>
#include <array>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <tuple>
#include <vector>
#include <unistd.h>
#include "common/vh.hpp"
extern "C" {
#if GEN == 1
#include "GTgraph/R-MAT/defs.h"
#include "GTgraph/R-MAT/globals.h"
void setGTgraphParams(int, int, double, double, double, double);
#elif GEN == 2
#include "GTgraph/random/defs.h"
#include "GTgraph/random/globals.h"
#else
#include "GTgraph/SSCA2/defs.h"
#include "GTgraph/SSCA2/globals.h"
#endif
void countingSort(LONG_T *, LONG_T *, WEIGHT_T *, LONG_T); void heapSort(LONG_T *, LONG_T *, WEIGHT_T *, LONG_T);
void graphGen(graph *); void writeToFile(graph *); void getParams(void); void updateLog(void);
int *__real_init_rng(int, int, int, int, int); double __real_get_rn_dbl(int *); int __real_get_rn_int(int *);
}
using vh::Rng; using vh::mix64; using vh::fail; using vh::count; using vh::maxi; using vh::opt;

// ---- random streams: the library's own, or seeded ones with extreme values ------------------------------
static int gMode = 0; static uint64_t gSeed = 1; static std::map<int *, Rng> gStreams; static uint64_t gDraws = 0;
extern "C" int *__wrap_init_rng(int type, int num, int total, int seed, int mult) {
    int *p = __real_init_rng(type, num, total, seed, mult);
    gStreams[p] = Rng(mix64(gSeed ^ (uint64_t) seed * 0x9e3779b97f4a7c15ull)); return p;
}
static double draw(int *s) {
    gDraws++;
    Rng &g = gStreams[s]; double u = g.unit();
    if (gMode == 2 && g.chance(1, 8)) u = g.chance(1, 2) ? 1 - 1.0 / 4294967296.0 : 0;     // below what rounding turns into 1
    if (gMode == 3) u = std::pow(u, .2);
    return u;
}
extern "C" double __wrap_get_rn_dbl(int *s) { return gMode ? draw(s) : __real_get_rn_dbl(s); }
extern "C" int __wrap_get_rn_int(int *s) { return gMode ? (int) (draw(s) * 2147483648.0) : __real_get_rn_int(s); }

namespace {
using T = std::tuple<long, long, long>; using Ts = std::vector<T>;
std::string gDir;
Ts take(graph &g) {
    Ts r; for (long i = 0; i < g.m; i++) r.push_back({g.start[i], g.end[i], g.w[i]});
    free(g.start); free(g.end); free(g.w); return r;
}
Ts sorted(Ts t) { std::sort(t.begin(), t.end()); return t; }
// DIMACS file; false if malformed
bool readFile(const std::string &p, Ts &r, long &hn, long &hm) {
    FILE *f = fopen(p.c_str(), "r"); if (!f) return false;
    char l[256]; int heads = 0; bool ok = true; r.clear();
    while (ok && fgets(l, sizeof l, f)) {
        long u, v, w; int at = 0;
        if (l[0] == 'c' || strspn(l, " \n") == strlen(l)) continue;
        if (l[0] == 'p') { ok = sscanf(l, "p sp %ld %ld %n", &hn, &hm, &at) == 2 && !l[at] && !r.size(); heads++; }
        else { ok = sscanf(l, "a %ld %ld %ld %n", &u, &v, &w, &at) == 3 && !l[at] && heads == 1; r.push_back({u - 1, v - 1, w}); }
    }
    fclose(f); return ok && heads == 1;
}
void put(char *d, const std::string &s) { strcpy(d, s.c_str()); }
const char *diff(const Ts &x, const Ts &y) {
    static char b[200];
    if (x.size() != y.size()) { snprintf(b, 200, "%zu against %zu edges", x.size(), y.size()); return b; }
    for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i]) { auto [a, e, c] = x[i]; auto [p, q, r] = y[i]; snprintf(b, 200, "edge %zu is (%ld,%ld,%ld) against (%ld,%ld,%ld)", i, a, e, c, p, q, r); return b; }
    return nullptr;
}
void judge(const std::string &K, const Ts &t, long N, bool self, long lo, long hi, bool byStart) {
    size_t out = 0, loops = 0, ww = 0, un = 0;
    for (size_t i = 0; i < t.size(); i++) {
        auto [u, v, w] = t[i];
        out += u < 0 || v < 0 || u >= N || v >= N; loops += u == v; ww += w < lo || (w >= hi && !(w == lo && lo == hi));
        un += i && std::get<0>(t[i - 1]) > u;
    }
    if (out) fail(K + ":range", "%zu edges leave the vertex range", out);
    if (!self && loops) fail(K + ":self", "%zu self loops although excluded", loops);
    if (ww) fail(K + ":weight", "%zu weights outside [%ld, %ld)", ww, lo, hi);
    if (byStart && un) fail(K + ":order", "%zu descents in the sorted edge list", un);
    count("edges", t.size()); maxi("edges", t.size());
}

// edge lists of graphs with up to 2^31 - 1 vertices, without the graphs
void sorting(long idx, Rng &g) {
    static const char *gen[] = {"", "rmat", "random", "ssca2"};
    long k = g.chance(1, 6) ? (long) g.below(4) : (long) g.below(g.chance(1, 4) ? 5000 : 200); int bits = 1 + (int) g.below(31), shape = (int) g.below(4), type = (int) g.below(2);
    std::string K = std::string(gen[GEN]) + (type ? "-heap" : "-count");
    vh::setCase("idx=%ld alg=%s-sort edges=%ld bits=%d shape=%d", idx, K.c_str(), k, bits, shape);
    long *s = (long *) malloc(k * sizeof(long)), *e = (long *) malloc(k * sizeof(long)); WEIGHT_T *w = (WEIGHT_T *) malloc(k * sizeof(WEIGHT_T));
    Ts want; long top = (1L << bits) - 1, step = 1L << g.below(bits);
    for (long i = 0; i < k; i++) {
        long v = (long) g.below((uint64_t) top + 1);
        if (shape == 1) v = v / step * step; if (shape == 2) v = std::min(top - (bits == 31), v % 3 * step); if (shape == 3) v = k - i < top ? k - i : v;
        if (v >= 0x7fffffff) v = 0x7ffffffe;
        s[i] = v; e[i] = i; w[i] = (WEIGHT_T) (i * 3 + 1); want.push_back({v, i, (long) w[i]});
    }
    if (type) heapSort(s, e, w, k); else countingSort(s, e, w, k);
    Ts got; size_t down = 0; for (long i = 0; i < k; i++) { got.push_back({s[i], e[i], (long) w[i]}); down += i && s[i] < s[i - 1]; }
    free(s); free(e); free(w);
    if (down) fail(K + ":order", "%zu descents in the sorted edge list", down);
    if (auto d = diff(sorted(got), sorted(want))) fail(K + ":content", "sorting changes the edges: %s", d);
    count("edge.lists.sorted"); vh::evaluation(mix64(idx) ^ k, k > 2);
}

#if GEN != 3
void run(long idx, Rng &g) {
    getParams();
    bool big = g.chance(1, 8);
    gMode = (int) g.below(4) == 0 ? 0 : 1 + (int) g.below(3); gSeed = g.next();
    n = g.chance(1, 3) ? 2 + (long) g.below(12) : 2 + (long) g.below(600);
    m = g.chance(1, 6) ? (long) g.below(4) : (long) g.below(big ? 20000 : 900);
    SELF_LOOPS = (int) g.below(2);
    MIN_WEIGHT = (long) g.below(3) * (long) g.below(500); MAX_WEIGHT = MIN_WEIGHT + (g.chance(1, 8) ? 0 : (long) g.below(1000));
    put(OUTFILE, gDir + "/g.gr"); put(LOGFILE, gDir + "/log");
    std::string K;
#if GEN == 1
    K = "rmat";
    if (g.chance(1, 2)) { long p = 1; while (p < n) p *= 2; n = p; }
    if (g.chance(1, 6)) { long sc = 1 + (long) g.below(9); long ef = 1 + (long) g.below(8); setGTgraphParams((int) sc, (int) ef, .57, .19, .19, .05); if (n != 1L << sc || m != (1L << sc) * ef) fail("rmat:parameters", "scale %ld, edge factor %ld became n=%ld m=%ld", sc, ef, n, m); }
    else { double s = 0, v[4]; for (double &x : v) s += x = .05 + g.unit(); a = v[0] / s; b = v[1] / s; c = v[2] / s; d = 1 - a - b - c; }
    double A = a, B = b, C = c, D = d;
    vh::setCase("idx=%ld alg=rmat n=%ld m=%ld a=%.3f b=%.3f c=%.3f d=%.3f self=%d weights=[%ld,%ld) random=%d", idx, n, m, a, b, c, d, SELF_LOOPS, MIN_WEIGHT, MAX_WEIGHT, gMode);
    auto again = [&] { a = A; b = B; c = C; d = D; };
#else
    GRAPH_MODEL = (int) g.below(2);
    K = GRAPH_MODEL ? "gnm" : "gnp";
    if (!GRAPH_MODEL && n > 200 && !big) n = 2 + n % 150;
    p = g.chance(1, 8) ? (g.chance(1, 2) ? 0 : 1) : g.chance(1, 3) ? g.unit() : g.unit() * 8 / n;
    if (p > 1) p = 1;
    if (!GRAPH_MODEL && gMode == 3) gMode = 1;          // G(n,p) is judged statistically
    long M = m;
    vh::setCase("idx=%ld alg=%s n=%ld m=%ld p=%.5f self=%d weights=[%ld,%ld) random=%d", idx, K.c_str(), n, m, p, SELF_LOOPS, MIN_WEIGHT, MAX_WEIGHT, gMode);
    auto again = [&] { m = M; };
#endif
    long N = n, want = m;
    graph G;
    auto memory = [&](int sort, int type) { again(); STORE_IN_MEMORY = 1; SORT_EDGELISTS = sort; SORT_TYPE = type; memset(&G, 0, sizeof G); graphGen(&G); if (G.n != N) fail(K + ":vertices", "the graph says %ld vertices", G.n); };
    memory(0, 0);
    WRITE_TO_FILE = 1; unlink(OUTFILE); writeToFile(&G);
    Ts base = take(G), f; long hn = -1, hm = -1;
    judge(K, base, N, SELF_LOOPS, MIN_WEIGHT, MAX_WEIGHT, false);
#if GEN == 2
    bool exact = GRAPH_MODEL == 1;
#else
    bool exact = true;
#endif
    if (exact && (long) base.size() != want) fail(K + ":count", "%zu edges for %ld", base.size(), want);
    if (!readFile(OUTFILE, f, hn, hm)) fail(K + ":format", "the written file is not a DIMACS graph");
    else if (hn != N || hm != (long) base.size()) fail(K + ":header", "the file announces %ld vertices, %ld edges", hn, hm);
    else if (auto d = diff(f, base)) fail(K + ":file", "written and stored graph differ: %s", d);
    WRITE_TO_FILE = 0; unlink(OUTFILE); { graph E{}; E.n = 1; writeToFile(&E); } if (!access(OUTFILE, F_OK)) fail(K + ":write", "a file was written although switched off");
    // the same parameters give the same graph: again, sorted by either method, and written directly
    memory(0, 0); Ts same = take(G);
    if (auto d = diff(same, base)) fail(K + ":repeat", "a second run gives another graph: %s", d);
    for (int type = 0; type < 2; type++) {
        memory(1, type); Ts s = take(G);
        judge(K + (type ? "-heap" : "-count"), s, N, SELF_LOOPS, MIN_WEIGHT, MAX_WEIGHT, true);
        if (auto d = diff(sorted(s), sorted(base))) fail(K + (type ? "-heap" : "-count") + ":content", "sorting changes the graph: %s", d);
    }
    again(); STORE_IN_MEMORY = 0; SORT_EDGELISTS = 0; unlink(OUTFILE); graphGen(&G);
    if (!readFile(OUTFILE, f, hn, hm)) fail(K + ":direct-format", "the directly written file is not a DIMACS graph");
    else {
        if (hn != N || hm != (long) f.size()) fail(K + ":direct-header", "the file announces %ld vertices, %ld edges; it has %zu", hn, hm, f.size());
        if (auto d = diff(f, base)) fail(K + ":direct", "written and stored graph differ: %s", d);
    }
#if GEN == 1
    if (SELF_LOOPS && base.size() >= 2000 && (gMode == 0 || gMode == 1) && n >= 2 && (n & (n - 1)) == 0) {
        double q[4] = {0, 0, 0, 0}, e[4] = {A, B, C, D}, k = (double) base.size();
        for (auto [u, v, w] : base) q[(u >= N / 2 ? 2 : 0) + (v >= N / 2 ? 1 : 0)]++;
        for (int i = 0; i < 4; i++) if (std::fabs(q[i] / k - e[i]) > 6 * std::sqrt(e[i] * (1 - e[i]) / k) + 2 / k) fail("rmat:distribution", "quadrant %d holds %.4f, expected %.4f", i, q[i] / k, e[i]);
        count("distributions");
    }
#else
    std::set<std::pair<long, long>> pairs; for (auto [u, v, w] : base) pairs.insert({u, v});
    if (!GRAPH_MODEL) {
        if (pairs.size() != base.size()) fail(K + ":duplicate", "a pair has several edges");
        double k = (double) N * (N - (SELF_LOOPS ? 0 : 1)), e = k * p, sd = std::sqrt(k * p * (1 - p));
        if (gMode == 0 || gMode == 1) { if (std::fabs(base.size() - e) > 6 * sd + 3) fail(K + ":probability", "%zu edges, expected %.1f", base.size(), e); count("distributions"); }
    } else if (base.size() >= 2000 && gMode < 2) {
        double k = (double) base.size(), lowU = 0, lowV = 0, e = (double) (N / 2) / N;
        for (auto [u, v, w] : base) lowU += u < N / 2, lowV += v < N / 2;
        if (N > 3 && std::max(std::fabs(lowU / k - e), std::fabs(lowV / k - e)) > 6 * .5 / std::sqrt(k)) fail(K + ":distribution", "low halves hold %.3f and %.3f", lowU / k, lowV / k);
        count("distributions");
    }
#endif
    if (base.size() >= 500 && gMode < 2 && MAX_WEIGHT - MIN_WEIGHT >= 20) {
        double s = 0; for (auto [u, v, w] : base) s += (double) (w - MIN_WEIGHT);
        double e = (double) (MAX_WEIGHT - MIN_WEIGHT);
        if (std::fabs(s / base.size() - e / 2) > .5 + 6 * .3 * e / std::sqrt((double) base.size())) fail(K + ":weight-distribution", "mean weight %.2f above the minimum of [0,%.0f)", s / base.size(), e);
    }
    count("graphs." + K); vh::evaluation(mix64(idx) ^ base.size(), base.size() > 2);
}
#else
void run(long idx, Rng &g) {
    getParams();
    gMode = (int) g.below(4); gSeed = g.next();
    TotVertices = g.chance(1, 3) ? 1 + (long) g.below(20) : 2 + (long) g.below(opt().thorough ? 1500 : 500);
    MaxCliqueSize = g.chance(1, 6) ? 1 : 2 + (long) g.below(g.chance(1, 3) ? 30 : 8);
    MaxParallelEdges = 1 + (long) g.below(4);
    ProbUnidirectional = g.chance(1, 4) ? (double) g.below(2) : g.unit();
    ProbIntercliqueEdges = g.chance(1, 2) ? 0 : g.unit() * .95;
    MinWeight = (long) g.below(3) * (long) g.below(500); MaxWeight = MinWeight + 1 + (long) g.below(1000);
    put(OUTFILE, gDir + "/g.gr"); put(LOGFILE, gDir + "/log");
    long N = TotVertices; std::string K = "ssca2";
    vh::setCase("idx=%ld alg=ssca2 n=%ld clique=%ld parallel=%ld uni=%.3f inter=%.3f weights=[%ld,%ld) random=%d", idx, N, MaxCliqueSize, MaxParallelEdges, ProbUnidirectional, ProbIntercliqueEdges, MinWeight, MaxWeight, gMode);
    graph G; auto memory = [&](int sort, int type) { SORT_EDGELISTS = sort; SORT_TYPE = type; memset(&G, 0, sizeof G); unlink(LOGFILE); graphGen(&G); if (G.n != N) fail(K + ":vertices", "the graph says %ld vertices", G.n); };
    memory(0, 0);
    long lv[5] = {-1, -1, -1, -1, -1};
    if (FILE *f = fopen(LOGFILE, "r")) { char l[256]; int k = 0; while (fgets(l, sizeof l, f)) if (char *q = strchr(l, ':')) if (k < 5) lv[k++] = atol(q + 1); fclose(f); }
    if (lv[0] != N || lv[1] != G.m || lv[3] + lv[4] != G.m) fail(K + ":log", "the log says %ld vertices, %ld edges = %ld + %ld", lv[0], lv[1], lv[3], lv[4]);
    WRITE_TO_FILE = 1; unlink(OUTFILE); writeToFile(&G);
    Ts base = take(G), f; long hn = -1, hm = -1;
    judge(K, base, N, false, MinWeight, MaxWeight, false);
    if (!readFile(OUTFILE, f, hn, hm)) fail(K + ":format", "the written file is not a DIMACS graph");
    else if (hn != N || hm != (long) base.size()) fail(K + ":header", "the file announces %ld vertices, %ld edges", hn, hm);
    else if (auto d = diff(f, base)) fail(K + ":file", "written and stored graph differ: %s", d);
    memory(0, 0); Ts same = take(G);
    if (auto d = diff(same, base)) fail(K + ":repeat", "a second run gives another graph: %s", d);
    for (int type = 0; type < 2; type++) {
        memory(1, type); Ts s = take(G);
        judge(K + (type ? "-heap" : "-count"), s, N, false, MinWeight, MaxWeight, true);
        if (auto d = diff(sorted(s), sorted(base))) fail(K + (type ? "-heap" : "-count") + ":content", "sorting changes the graph: %s", d);
    }
    std::map<std::pair<long, long>, int> mult; for (auto [u, v, w] : base) mult[{u, v}]++;
    // a pair is linked inside its cluster or, once, between clusters: the distances of one vertex are below n and in disjoint ranges
    for (auto &e : mult) if (e.second > MaxParallelEdges) { fail(K + ":parallel", "%d parallel edges of %ld", e.second, MaxParallelEdges); break; }
    if (gMode < 2) {
        // between clusters: one trial per vertex and distance range, of half the probability of the range before
        double most = 0, var = 0, pr = ProbIntercliqueEdges; int ranges = (int) std::floor(std::log2((double) N) + 1e-9) - 1;
        for (int t = 0; t < ranges; t++, pr /= 2) { most += N * pr; var += N * pr * (1 - pr); }
        if (MaxParallelEdges == 1 && lv[4] > most + 6 * std::sqrt(var) + 2) fail(K + ":between", "%ld edges between clusters, expected at most %.1f", lv[4], most);
        if (MaxParallelEdges == 1 && MaxCliqueSize == 1) {
            count("between.distributions");
            if (lv[3] != 0 || std::fabs(lv[4] - most) > 6 * std::sqrt(var) + 2) fail(K + ":between", "%ld edges between single vertices, expected %.1f", lv[4], most);
        }
    }
    if (ProbIntercliqueEdges == 0 && gMode != 2) {      // an extreme draw of 0 counts as below any probability
        // a disjoint union of cliques
        std::vector<std::vector<int>> adj(N); long both = 0, one = 0;
        for (auto &e : mult) {
            auto [u, v] = e.first; if (e.second > MaxParallelEdges) fail(K + ":parallel", "%d parallel edges of %ld", e.second, MaxParallelEdges);
            if (mult.count({v, u})) { both += u < v; if (u < v) { adj[u].push_back(v); adj[v].push_back(u); } } else { one++; adj[u].push_back(v); adj[v].push_back(u); }
        }
        std::vector<int> comp(N, -1); long cliques = 0;
        for (long s = 0; s < N; s++) if (comp[s] < 0) {
            std::vector<int> q{(int) s}; comp[s] = cliques;
            for (size_t i = 0; i < q.size(); i++) for (int v : adj[q[i]]) if (comp[v] < 0) { comp[v] = cliques; q.push_back(v); }
            if ((long) q.size() > MaxCliqueSize) fail(K + ":clique-size", "a cluster has %zu vertices, at most %ld", q.size(), MaxCliqueSize);
            for (int v : q) if (adj[v].size() != q.size() - 1) { fail(K + ":clique", "vertex %d has %zu of %zu neighbours in its cluster", v, adj[v].size(), q.size() - 1); break; }
            cliques++;
        }
        if (lv[2] != cliques) fail(K + ":clusters", "the log says %ld clusters, the graph has %ld", lv[2], cliques);
        double k = (double) (both + one), e = k * ProbUnidirectional;
        if (gMode < 2 && k > 0 && std::fabs(one - e) > 6 * std::sqrt(k * ProbUnidirectional * (1 - ProbUnidirectional)) + 2) fail(K + ":unidirectional", "%ld of %.0f pairs have one direction, expected %.1f", one, k, e);
        count("clique.unions");
    }
    count("graphs.ssca2"); vh::evaluation(mix64(idx) ^ base.size(), base.size() > 2);
}
#endif
}
int main(int argc, char **argv) {
    vh::init(argc, argv);
    char t[] = "/tmp/gtXXXXXX"; if (!mkdtemp(t)) return 2;
    gDir = t;
    stderr = fopen("/dev/null", "w");        // the generators' progress messages; the sanitizers write to the descriptor
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        if (idx % 4 == 3) sorting(idx, g); else run(idx, g);
        if (idx % 300 < 3) vh::sample(vh::currentCase());
    }
    count("draws", gDraws);
    unlink((gDir + "/g.gr").c_str()); unlink((gDir + "/log").c_str()); rmdir(t);
    return vh::finish();
}
