// Random streams of GTgraph/sprng2.0-lite: published reference numbers, recurrences, and histories of many streams.
#include <algorithm>
#include <cmath>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <unistd.h>
#include "common/vh.hpp"
#include "interface.h"
extern "C" { int getprime_32(int, int *, int); int getprime_64(int, unsigned *, int); }
using vh::Rng; using vh::mix64; using vh::fail; using vh::count; using vh::maxi; using vh::opt;
namespace {
const char *NAME[] = {"lfg", "lcg", "lcg64", "cmrg", "mlfg"};
const int PARAMS[] = {11, 7, 3, 3, 11};
std::string key(int t, const char *k) { return std::string(NAME[t]) + ":" + k; }

// ---- numbers published with the library (seed 985456376, parameter 0) -----------------------------------
void published(int t, const std::string &dir) {
    vh::setCase("alg=published type=%s", NAME[t]);
    std::ifstream f(dir + "/" + NAME[t] + ".data"); std::vector<std::string> d; std::string l;
    while (std::getline(f, l)) d.push_back(l);
    if (d.size() != 1800) { fprintf(stderr, "reference numbers missing\n"); exit(2); }
    const int seed = 985456376; char b[64]; size_t p = 0;
    auto same = [&](const char *what) { if (d[p] != b) { fail(key(t, "published"), "%s: number %zu is %s, published %s", what, p + 1, b, d[p].c_str()); p = 1u << 20; } else p++; return p < 1800; };
    int *r = init_rng(t, 0, 1, seed, 0); if (!r) { fail(key(t, "init"), "no generator"); return; }
    for (int i = 0; i < 500 && p < 1800; i++) { snprintf(b, 64, "%d", get_rn_int(r)); same("int"); }
    for (int i = 0; i < 500 && p < 1800; i++) { snprintf(b, 64, "%f", get_rn_flt(r)); same("float"); }
    for (int i = 0; i < 500 && p < 1800; i++) { snprintf(b, 64, "%.14f", get_rn_dbl(r)); same("double"); }
    if (p > 1800) { free_rng(r); return; }
    int *s = init_rng(t, 0, 3, seed, 0);
    p = 1650; for (int i = 0; i < 50; i++) { snprintf(b, 64, "%d", get_rn_int(s)); if (!same("stream 0 of 3")) break; }
    int **c; if (spawn_rng(s, 2, &c, 0) != 2) fail(key(t, "spawn"), "two children were asked for"); else { free_rng(c[0]); free_rng(c[1]); free(c); }
    int *u = init_rng(t, 1, 2, seed, 0);
    if (p < 1800) { p = 1750; for (int i = 0; i < 50; i++) { snprintf(b, 64, "%d", get_rn_int(u)); if (!same("stream 1")) break; } }
    free_rng(r); free_rng(s); free_rng(u);
    count("published", 1600); vh::evaluation(mix64(t), true);
}
// ---- primes --------------------------------------------------------------------------------------------
bool isPrime(uint64_t n) { if (n < 2) return false; for (uint64_t i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
void primes(long idx, Rng &g) {
    bool wide = g.chance(1, 2); int need = 1 + (int) g.below(g.chance(1, 4) ? 40 : 5);
    int off = g.chance(1, 3) ? (int) g.below(1200) : g.chance(1, 3) ? 990 + (int) g.below(30) : g.chance(1, 2) ? 1000 * (int) g.below(200) + (int) g.below(3) : (int) g.below(wide ? 3000000 : 700000);
    vh::setCase("idx=%ld alg=primes width=%d first=%d number=%d", idx, wide ? 64 : 32, off, need);
    std::vector<uint64_t> p; auto get = [&](int n, int o) { std::vector<uint64_t> r;
        if (wide) { unsigned *a = (unsigned *) malloc(sizeof(unsigned) * n); int k = getprime_64(n, a, o); if (k == n) r.assign(a, a + n); free(a); }
        else { int *a = (int *) malloc(sizeof(int) * n); int k = getprime_32(n, a, o); if (k == n) r.assign(a, a + n); free(a); }
        return r; };
    p = get(need, off);
    if ((int) p.size() != need) { fail("primes:number", "fewer than %d primes", need); return; }
    for (int i = 0; i < need; i++) {
        if (!isPrime(p[i])) { fail("primes:prime", "entry %d, %llu, is not prime", off + i, (unsigned long long) p[i]); return; }
        if (i) for (uint64_t q = p[i] + 1; q < p[i - 1]; q++) if (isPrime(q)) { fail("primes:gap", "%llu is skipped", (unsigned long long) q); return; }
        if (i && p[i] >= p[i - 1]) { fail("primes:order", "entry %d", off + i); return; }
    }
    int k = (int) g.below(need); auto q = get(1, off + k);
    if (q.size() != 1 || q[0] != p[k]) fail("primes:offset", "entry %d differs when asked for alone", off + k);
    if (off == 0 && p[0] != (wide ? 3037000493u : 11863279u)) fail("primes:first", "the first prime is %llu", (unsigned long long) p[0]);
    count("primes", need); vh::evaluation(mix64(idx) ^ off, true);
}
// ---- recurrences of the congruential generators ---------------------------------------------------------
const uint64_t M48[] = {0x2875a2e7b175, 0x5deece66d, 0x3eac44605265, 0x275b38eb4bbd, 0x1ee1429cc9f5, 0x739a9cb08605, 0x3228d7cc25f5};
const uint64_t M64[] = {0x27bb2ee687b0b0fd, 0x2c6fe96ee78b6955, 0x369dea0f31a53f85};
void recurrence(long idx, Rng &g) {
    int t = 1 + (int) g.below(3), par = (int) g.below(PARAMS[t]), tot = 1 + (int) g.below(g.chance(1, 6) ? 1500 : 20), gn = (int) g.below(tot), seed = g.chance(1, 4) ? (int) g.below(3) : (int) g.next();
    vh::setCase("idx=%ld alg=recurrence type=%s stream=%d of %d seed=%d parameter=%d", idx, NAME[t], gn, tot, seed, par);
    int p32; unsigned p64; uint64_t x, p, s[5] = {1, 1, 1, 1, 1};
    if (t == 1) { getprime_32(1, &p32, gn); p = (uint64_t) p32; x = 0x2bc68cfe166d ^ (((uint64_t) seed & 0x7fffffff) << 16); }
    else { getprime_64(1, &p64, gn); p = p64; x = 0x2bc6ffff8cfe166d ^ (((uint64_t) (int64_t) seed << 33) | (uint64_t) gn); }
    auto step = [&]() -> double {          // the next number in [0,1)
        if (t == 1) { x = (x * M48[par] + p) & 0xffffffffffff; return (double) x * std::ldexp(1, -48); }
        x = x * M64[par] + p; uint64_t y = x;
        if (t == 3) { uint64_t q = (107374182 * s[0] + 104480 * s[4]) % 2147483647; s[4] = s[3]; s[3] = s[2]; s[2] = s[1]; s[1] = s[0]; s[0] = q; y += q << 32; }
        return (double) (y >> 11) * std::ldexp(1, -53);
    };
    for (int i = 0; i < (t == 1 ? 29 : 127) * gn; i++) step();
    int *r = init_rng(t, gn, tot, seed, par); if (!r) { fail(key(t, "init"), "no generator"); return; }
    for (int i = 0; i < 60; i++) {
        double w = step(); int k = (int) g.below(3);
        if (k == 0) { int v = get_rn_int(r); if (v != (int) (w * 2147483648.0)) { fail(key(t, "recurrence"), "number %d is %d, not %.0f", i, v, std::floor(w * 2147483648.0)); break; } }
        else { double v = k == 1 ? get_rn_dbl(r) : get_rn_flt(r); if (std::fabs(v - w) > (k == 1 ? 1e-15 : 1e-7)) { fail(key(t, "recurrence"), "number %d is %.17g, not %.17g", i, v, w); break; } }
    }
    if (get_seed_rng(r) != (seed & 0x7fffffff)) fail(key(t, "seed"), "the seed is %d", get_seed_rng(r));
    free_rng(r); count("recurrences"); vh::evaluation(mix64(idx) ^ seed, true);
}
// ---- histories of many streams --------------------------------------------------------------------------
struct Op { int kind; int a, b, c, d, e; };      // 0 init, 1 draw, 2 spawn a and stay, 3 spawn a and become child b, 4 become a packed copy
struct Gen { int *g; std::vector<Op> line; std::vector<double> seen; std::vector<int> kinds; long spread; bool copy; int first; };
int gLive[5];
double draw(int t, int *g, int kind) {
    double v; if (kind == 0) { int i = get_rn_int(g); if (i < 0) fail(key(t, "range"), "integer %d", i); v = i / 2147483648.0; } else v = kind == 1 ? get_rn_dbl(g) : get_rn_flt(g);
    if (!(v >= 0 && v <= 1)) fail(key(t, "range"), "number %.17g", v);
    return v;
}
void release(int t, int *g) { int left = free_rng(g); gLive[t]--; if (left != gLive[t]) fail(key(t, "number"), "%d streams are said to be left, %d are", left, gLive[t]); }
int *packed(int t, int *g) {
    char *b = nullptr; int n = pack_rng(g, &b); if (n <= 0 || !b) { fail(key(t, "pack"), "nothing packed"); return nullptr; }
    char *e = (char *) malloc(n); memcpy(e, b, n); free(b);       // exactly what it said it needs
    int *r = unpack_rng(e); free(e); if (!r) fail(key(t, "unpack"), "a packed stream cannot be unpacked"); else gLive[t]++;
    return r;
}
void history(long idx, Rng &g) {
    int t = (int) g.below(5), seed = g.chance(1, 4) ? (int) g.below(4) : (int) g.next(), par = (int) g.below(PARAMS[t]), tot = 1 + (int) g.below(5), ops = 5 + (int) g.below(50);
    long limit = t == 0 || t == 4 ? 1 << 24 : 400;
    vh::setCase("idx=%ld alg=history type=%s streams=%d seed=%d parameter=%d operations=%d", idx, NAME[t], tot, seed, par, ops);
    std::vector<Gen> v; uint64_t sig = idx; int copies = 0, spawned = 0;
    if (int *z = init_rng(t, 0, 1, 1, 0)) gLive[t] = free_rng(z);      // all but the default stream are freed where they were made
    auto start = [&](int gn) { int *r = init_rng(t, gn, tot, seed, par); if (r) gLive[t]++; return r; };
    for (int i = 0; i < tot; i++) { int *r = start(i); if (!r) { fail(key(t, "init"), "no generator"); return; } v.push_back({r, {{0, i, tot, seed, par, 0}}, {}, {}, tot, false, i}); }
    for (int o = 0; o < ops; o++) {
        size_t i = g.below(v.size()); int k = (int) g.below(12);
        if (k < 7) { int n = 1 + (int) g.below(g.chance(1, 10) ? 3000 : 20), kind = (int) g.below(3); v[i].line.push_back({1, n, kind, 0, 0, 0}); for (int j = 0; j < n; j++) { v[i].seen.push_back(draw(t, v[i].g, kind)); v[i].kinds.push_back(kind); } }
        else if (k < 10) {
            int n = 1 + (int) g.below(3); if (v.size() > 14 || v[i].spread * (n + 1) > limit) continue;
            int **c = nullptr, m = spawn_rng(v[i].g, n, &c, 0); if (m != n) { fail(key(t, "spawn"), "%d of %d children", m, n); return; }
            gLive[t] += n; v[i].spread *= n + 1; spawned += n;
            for (int j = 0; j < n; j++) { Gen x = v[i]; x.g = c[j]; x.line.push_back({3, n, j, 0, 0, 0}); v.push_back(x); }
            v[i].line.push_back({2, n, 0, 0, 0, 0}); free(c);
        } else if (k == 10) {
            int *q = packed(t, v[i].g); if (!q) return;
            Gen x = v[i]; x.g = q; x.copy = true; copies++; if (v[i].line.back().kind != 4) x.line.push_back({4, 0, 0, 0, 0, 0}); v.push_back(x);
        } else if (v.size() > 3) { release(t, v[i].g); v.erase(v.begin() + i); }
        sig = mix64(sig ^ k ^ i);
    }
    // each stream alone: the same numbers, whatever happened to the others, and whatever form they are drawn in
    for (auto &x : v) {
        bool other = g.chance(1, 2), bad = false; int *r = nullptr; size_t p = 0;
        for (auto &o : x.line) {
            if (o.kind == 0) r = start(o.a);
            else if (o.kind == 1) for (int j = 0; j < o.a; j++, p++) {
                int kind = other ? (int) g.below(3) : o.b; double w = draw(t, r, kind), tol = kind == o.b ? 0 : kind == 2 || o.b == 2 ? 6.1e-8 : 4.7e-10;
                if (!bad && std::fabs(w - x.seen[p]) > tol) { bad = true; fail(key(t, kind == o.b ? "reproducible" : "forms"), "number %zu is %.17g here and %.17g alone (forms %d and %d)", p, x.seen[p], w, o.b, kind); }
            } else if (o.kind == 4) { int *q = packed(t, r); release(t, r); r = q; if (!r) return; }
            else { int **c = nullptr, m = spawn_rng(r, o.a, &c, 0); gLive[t] += m; if (m != o.a) { fail(key(t, "spawn"), "%d of %d children", m, o.a); return; } int *keep = o.kind == 3 ? c[o.b] : nullptr; for (int j = 0; j < m; j++) if (c[j] != keep) release(t, c[j]); if (keep) { release(t, r); r = keep; } free(c); }
        }
        for (int j = 0; j < 40 && !bad; j++) { double a = draw(t, x.g, j % 3), b = draw(t, r, j % 3); x.seen.push_back(a); if (a != b) { bad = true; fail(key(t, "reproducible"), "%d numbers on: %.17g, alone %.17g", j, a, b); } }
        if (get_seed_rng(x.g) != (seed & 0x7fffffff) || get_seed_rng(r) != (seed & 0x7fffffff)) fail(key(t, "seed"), "the seed is said to be %d", get_seed_rng(x.g));
        // children of equals are equals
        if (x.spread * 3 <= limit) {
            int **c, **d; int m = spawn_rng(x.g, 2, &c, 0), n = spawn_rng(r, 2, &d, 0); gLive[t] += m + n;
            for (int j = 0; j < 2; j++) { for (int q = 0; q < 12; q++) if (draw(t, c[j], 0) != draw(t, d[j], 0)) { fail(key(t, "spawn-reproducible"), "child %d differs in number %d", j, q); break; } release(t, c[j]); release(t, d[j]); }
            free(c); free(d);
        }
        release(t, r); count("numbers", x.seen.size());
    }
    // no two streams alike: fresh streams and all descendants, from their first number
    std::map<std::vector<double>, size_t> firsts;
    for (size_t i = 0; i < v.size(); i++) {
        if (v[i].copy) continue;
        bool rel = false; for (auto &o : v[i].line) rel |= o.kind == 4;
        if (rel) continue;                              // descends from a copy: shares its future with the original's descendants
        std::vector<double> f; for (int j = 0; j < 6; j++) f.push_back(draw(t, v[i].g, 0));
        if (!firsts.insert({f, i}).second) fail(key(t, "distinct"), "two of %zu streams continue alike", v.size());
    }
    maxi("streams alive", v.size());
    for (auto &x : v) release(t, x.g);
    count("histories." + std::string(NAME[t])); count("copies", copies); count("spawned", spawned); vh::evaluation(sig, ops > 8 && tot + spawned > 1);
}
// ---- many streams: distinct, uniform, unrelated ----------------------------------------------------------
void family(long idx, Rng &g) {
    int t = (int) g.below(5), par = (int) g.below(PARAMS[t]), seed = (int) (g.next() & 0x7fffffff), n = t == 0 || t == 4 ? 200 : 120;
    vh::setCase("idx=%ld alg=family type=%s seed=%d parameter=%d streams=%d", idx, NAME[t], seed, par, n);
    std::set<std::vector<int>> f; std::vector<double> prev; const int N = 4096, B = 64;
    for (int i = 0; i < n; i++) {
        int *r = init_rng(t, i, n, seed, par); if (!r) { fail(key(t, "init"), "no generator"); return; }
        std::vector<int> a; for (int j = 0; j < 5; j++) a.push_back(get_rn_int(r));
        if (!f.insert(a).second) fail(key(t, "distinct"), "stream %d of %d repeats another one", i, n);
        if (i < 6) {
            std::vector<double> x(N); std::vector<int> h(B); for (double &d : x) { d = get_rn_dbl(r); if (!(d >= 0 && d <= 1)) { fail(key(t, "range"), "%.17g", d); d = 0; } h[std::min(B - 1, (int) (d * B))]++; }
            double c2 = 0; for (int k : h) c2 += (k - (double) N / B) * (k - (double) N / B) / ((double) N / B);
            if (par == 0 && c2 > B - 1 + 9 * std::sqrt(2.0 * (B - 1))) fail(key(t, "uniform"), "chi-square %.1f over %d classes, stream %d", c2, B, i);
            double s1 = 0, s2 = 0; for (int k = 0; k + 1 < N; k++) s1 += (x[k] - .5) * (x[k + 1] - .5); if (!prev.empty()) for (int k = 0; k < N; k++) s2 += (x[k] - .5) * (prev[k] - .5);
            double lim = 8 * std::sqrt((double) N) / 12; if (par == 0 && (std::fabs(s1) > lim || std::fabs(s2) > lim)) fail(key(t, "correlation"), "serial %.2f, with stream %d: %.2f, limit %.2f", s1, i - 1, s2, lim);
            prev = x; count("numbers", N);
        }
        free_rng(r);
    }
    count("families." + std::string(NAME[t])); vh::evaluation(mix64(idx) ^ seed, true);
}
// ---- arguments out of range, and the interface without handles ------------------------------------------
void edges(long idx, Rng &g) {
    int t = (int) g.below(5), seed = (int) (g.next() & 0x7fffffff);
    vh::setCase("idx=%ld alg=edges type=%s seed=%d", idx, NAME[t], seed);
    if (init_rng(t, -1 - (int) g.below(3), 3, seed, 0) || init_rng(t, 3 + (int) g.below(3), 3, seed, 0) || init_rng(5 + (int) g.below(4), 0, 1, seed, 0) || init_rng(-1, 0, 1, seed, 0)) fail(key(t, "arguments"), "a stream outside the range was created");
    auto same = [&](int *a, int *b, const char *what) { if (!a || !b) fail(key(t, "arguments"), "%s: no generator", what); else for (int i = 0; i < 20; i++) if (get_rn_int(a) != get_rn_int(b)) { fail(key(t, "arguments"), "%s", what); break; } if (a) free_rng(a); if (b) free_rng(b); };
    same(init_rng(t, 0, 1, seed, PARAMS[t] + (int) g.below(3)), init_rng(t, 0, 1, seed, 0), "an unknown parameter is not replaced by the default");
    same(init_rng(t, 0, 1, seed, -1), init_rng(t, 0, 1, seed, 0), "a negative parameter is not replaced by the default");
    same(init_rng(t, 0, -(int) g.below(3), seed, 0), init_rng(t, 0, 1, seed, 0), "no streams are not replaced by one");
    static bool first = true; int *a;
    if (first && opt().from == 0) a = init_rng(0, 0, 1, 0, 0);             // the default when nothing was initialised
    else { int par = (int) g.below(PARAMS[t]); if (!init_rng_simple(t, seed, par)) { fail(key(t, "simple"), "not initialised"); return; } a = init_rng(t, 0, 1, seed, par); }
    first = false;
    for (int i = 0; i < 60; i++) {
        int k = (int) g.below(3); bool eq = k == 0 ? get_rn_int_simple() == get_rn_int(a) : k == 1 ? get_rn_dbl_simple() == get_rn_dbl(a) : get_rn_flt_simple() == get_rn_flt(a);
        if (!eq) { fail(key(t, "simple"), "number %d differs from that of stream 0", i); break; }
        if (i == 30) { char *b = nullptr; if (pack_rng_simple(&b) <= 0) fail(key(t, "simple"), "nothing packed"); for (int j = 0; j < 7; j++) get_rn_int_simple(); if (!unpack_rng_simple(b)) fail(key(t, "simple"), "not unpacked"); free(b); }
    }
    free_rng(a); if (make_new_seed() < 0) fail("seed:range", "negative seed");
    count("edges"); vh::evaluation(mix64(idx) ^ seed, true);
}
}
int main(int argc, char **argv) {
    vh::init(argc, argv);
    stderr = fopen("/dev/null", "w");        // warnings about the arguments; the sanitizers write to the descriptor
    std::string dir; for (int i = 1; i + 1 < argc; i++) if (std::string(argv[i]) == "--data") dir = argv[i + 1];
    if (!dir.empty()) for (int t = 0; t < 5; t++) published(t, dir);
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        int k = (int) (idx % 12);
        if (k < 7) { history(idx, g); if (vh::st().failures > 50) break; } else if (k < 9) recurrence(idx, g); else if (k == 9) primes(idx, g); else if (k == 10) family(idx, g); else edges(idx, g);
        if (idx % 400 < 3) vh::sample(vh::currentCase());
    }
    return vh::finish();
}
