// Matrix files: coordinate text and binary files are read entry by entry, unusable files are reported.
// Built once per PART (1 text to columns, 2 text to triples, 3 binary, 4 text to rows, 0 main).
#include "CSC.h"
#include "CSR.h"
#include "IO.h"
#include "common/mat.hpp"
#include "common/quiet.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <array>
#include <string>
using namespace vh;

template<class NT> struct Entry { int64_t r, c; NT v; bool operator<(const Entry &o) const { return r != o.r ? r < o.r : c != o.c ? c < o.c : toBits(v) < toBits(o.v); } bool operator==(const Entry &o) const { return r == o.r && c == o.c && toBits(v) == toBits(o.v); } };
template<class NT> struct File { int64_t m, n; bool sym, pattern, wild; std::vector<Entry<NT>> e; int fault; std::string name; size_t lines; };
// faults: 0 none, 1 absent file, 2 ends early, 3 a line without column, 4 position outside the matrix, 5 no size line

#if PART
template<class NT> static NT anyVal(Rng &g) {
    if constexpr (std::is_floating_point<NT>::value) {
        switch (g.below(5)) { case 0: return (NT) (g.range(-9, 9)); case 1: return (NT) (g.unit() * 1e-3); case 2: return (NT) ((g.unit() - 0.5) * 1e12); case 3: return (NT) (g.unit() * 1e-30); default: return (NT) (g.range(-4000, 4000) / 16.0); }
    } else {
        bool big = g.chance(1, 4);
        if (std::is_signed<NT>::value) return (NT) g.range(big ? std::numeric_limits<NT>::min() + 1 : -9, big ? std::numeric_limits<NT>::max() - 1 : 9);
        return (NT) g.below(big ? (uint64_t) std::numeric_limits<NT>::max() : 10);
    }
}
template<class NT> static File<NT> make(Rng &g, long idx, bool faults) {
    File<NT> f; f.sym = g.chance(2, 5); f.pattern = g.chance(1, 3); f.wild = g.chance(1, 2);
    f.m = 1 + g.below(g.chance(1, 2) ? 5 : 60); f.n = f.sym ? f.m : 1 + g.below(g.chance(1, 2) ? 5 : 60);
    bool large = g.chance(1, 60); if (large) { f.m = 1 + g.below(g.chance(1, 3) ? 2000000 : 3000); f.n = f.sym ? f.m : 1 + g.below(g.chance(1, 3) ? 2000000 : 3000); count("files.large"); }
    f.fault = faults && g.chance(1, 4) ? 1 + (int) g.below(5) : 0;
    size_t k = g.chance(1, 12) ? 0 : g.below(large ? 20000 : g.chance(1, 4) ? 400 : 2 * f.m + 2);
    if (f.fault > 1 && k == 0) k = 1;
    bool dup = g.chance(1, 4), upper = g.chance(1, 3); std::set<std::pair<int64_t, int64_t>> have;
    for (size_t i = 0; i < k; i++) {
        int64_t r = g.below(f.m), c = g.below(f.n);
        if (f.sym && c > r && !upper) std::swap(r, c);
        if (g.chance(1, 10) && f.m == f.n) c = r;
        if (!dup && (f.sym && have.count({c, r}) || !have.insert({r, c}).second)) continue;
        f.e.push_back({r, c, f.pattern ? NT(1) : anyVal<NT>(g)});
    }
    f.lines = f.e.size();
    f.name = "m" + std::to_string(idx) + ".mtx";
    unlink(f.name.c_str());
    if (f.fault == 1) return f;
    FILE *o = fopen(f.name.c_str(), "w");
    auto sep = [&]() -> const char * { if (!f.wild) return " "; switch (g.below(4)) { case 0: return "\t"; case 1: return "  "; case 2: return " \t "; default: return " "; } };
    const char *nl = f.wild && g.chance(1, 4) ? "\r\n" : "\n";
    fprintf(o, "%%%%MatrixMarket matrix coordinate %s %s\n", f.pattern ? "pattern" : std::is_integral<NT>::value ? "integer" : "real", f.sym ? "symmetric" : "general");
    for (size_t c = g.below(4); c; c--) {
        static const char *text[] = {" 17 18 produced by a generator of sparse test matrices, 1 2 3 4 5 6 7 8", " kind: least squares problem, unsymmetric", " notes: the symmetric part is kept apart", "% title: coordinate pattern symmetric", " general", " 3 3 3"};
        std::string t = text[g.below(6)];
        if (g.chance(1, 4)) { static const size_t len[] = {200, 253, 254, 255, 256, 257, 300, 511, 1024, 5000}; size_t n = len[g.below(10)]; while (t.size() < n) t += " word"; t.resize(n); }
        else if (g.chance(1, 4)) t.resize(g.below(t.size() + 1));
        fprintf(o, "%%%s\n", t.c_str());
    }
    if (f.fault != 5) fprintf(o, "%s%lld%s%lld%s%zu%s", f.wild && g.chance(1, 3) ? " " : "", (long long) f.m, sep(), (long long) f.n, sep(), f.e.size(), nl);
    size_t bad = f.e.empty() ? 0 : g.below(f.e.size());
    for (size_t i = 0; i < f.e.size(); i++) {
        if (f.fault == 5 || (f.fault == 2 && i == bad)) break;
        bool last = i + 1 == f.e.size();
        auto &x = f.e[i];
        if (f.fault == 3 && i == bad) { fprintf(o, "%lld%s", (long long) x.r + 1, nl); continue; }
        long long r = x.r + 1, c = x.c + 1;
        if (f.fault == 4 && i == bad) { if (g.chance(1, 2)) r = g.chance(1, 2) ? f.m + 1 + (long long) g.below(1000) : 0; else c = g.chance(1, 2) ? f.n + 1 + (long long) g.below(1000) : 0; }
        fprintf(o, "%s%lld%s%lld", f.wild && g.chance(1, 3) ? sep() : "", r, sep(), c);
        if (!f.pattern) {
            if constexpr (std::is_floating_point<NT>::value) fprintf(o, g.chance(1, 3) ? "%s%.17g" : "%s%.20e", sep(), (double) x.v);
            else if constexpr (std::is_signed<NT>::value) fprintf(o, "%s%lld", sep(), (long long) x.v);
            else fprintf(o, "%s%llu", sep(), (unsigned long long) x.v);
        }
        if (f.wild && g.chance(1, 4)) fprintf(o, " ");
        if (!(last && g.chance(1, 4))) fprintf(o, "%s", nl);
    }
    fclose(o);
    return f;
}
template<class NT> static std::vector<Entry<NT>> expand(const File<NT> &f, bool noDiag = false) {
    std::vector<Entry<NT>> w;
    for (auto &x : f.e) { if (noDiag && x.r == x.c) continue; w.push_back(x); if (f.sym && x.r != x.c) w.push_back({x.c, x.r, x.v}); }
    std::sort(w.begin(), w.end());
    return w;
}
template<class NT> static void describe(const File<NT> &f, const char *alg, const char *ty, long idx) {
    static const char *fn[] = {"none", "absent", "ends-early", "no-column", "outside", "no-size"};
    setCase("idx=%ld alg=%s types=%s dims=%lldx%lld lines=%zu symmetric=%d pattern=%d spacing=%s fault=%s", idx, alg, ty, (long long) f.m, (long long) f.n, f.lines, f.sym, f.pattern, f.wild ? "free" : "plain", fn[f.fault]);
    count(std::string("files.") + fn[f.fault]); if (f.sym) count("files.symmetric"); if (f.wild) count("files.free-spacing");
}
template<class NT> static void judge(const char *key, std::vector<Entry<NT>> got, const std::vector<Entry<NT>> &want) {
    std::sort(got.begin(), got.end());
    if (got.size() != want.size()) { fail(std::string(key) + ":count", "%zu entries, the file describes %zu", got.size(), want.size()); return; }
    for (size_t i = 0; i < got.size(); i++) if (!(got[i] == want[i])) { fail(std::string(key) + ((got[i].r != want[i].r || got[i].c != want[i].c) ? ":position" : ":value"), "entry %zu is (%lld,%lld)=%.17g, expected (%lld,%lld)=%.17g", i, (long long) got[i].r, (long long) got[i].c, (double) got[i].v, (long long) want[i].r, (long long) want[i].c, (double) want[i].v); return; }
}
#define TYPES(F) switch (idx % 5) { \
        case 0: F<int32_t, double>("i32f64", idx, g); break; \
        case 1: F<uint32_t, float>("u32f32", idx, g); break; \
        case 2: F<int64_t, uint64_t>("i64u64", idx, g); break; \
        case 3: F<uint64_t, int32_t>("u64i32", idx, g); break; \
        default: F<int64_t, int64_t>("i64i64", idx, g); break; }
#endif

#if PART == 1
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    auto f = make<NT>(g, idx, true);
    describe(f, "read-text", ty, idx);
    CSC<IT, NT> c;
    if (g.chance(1, 3)) { Triple<IT, NT> old[2] = {{0, 0, NT(1)}, {1, 1, NT(2)}}; CSC<IT, NT> o(old, (IT) 2, (IT) 2, (IT) 2); c = o; }      // an older value is replaced
    int rc = ReadASCII(f.name, c);
    unlink(f.name.c_str());
    if (f.fault) { if (rc >= 0) fail("read-text:not-reported", "an unusable file was accepted"); }
    else {
        if (rc < 0) { fail("read-text:rejected", "a valid file was rejected"); return; }
        if ((int64_t) c.rows != f.m || (int64_t) c.cols != f.n) { fail("read-text:shape", "%lldx%lld, expected %lldx%lld", (long long) c.rows, (long long) c.cols, (long long) f.m, (long long) f.n); return; }
        std::vector<Entry<NT>> got;
        for (int64_t j = 0; j < f.n; j++) for (IT p = c.colptr[j]; p < c.colptr[j + 1]; p++) got.push_back({(int64_t) c.rowids[p], j, c.values[p]});
        if ((size_t) c.nnz != got.size() || c.colptr[0] != 0) fail("read-text:offset", "offsets do not span the entries");
        judge<NT>("read-text", got, expand(f));
    }
    evaluation(mix64(idx) ^ f.e.size(), f.e.size() > 1);
}
void io_part_1(long idx, Rng &g) { TYPES(one) }
#elif PART == 2
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    auto f = make<NT>(g, idx, true);
    bool noDiag = g.chance(1, 2), rnd = g.chance(1, 3);
    describe(f, noDiag ? rnd ? "read-triples-nodiag-random" : "read-triples-nodiag" : rnd ? "read-triples-random" : "read-triples", ty, idx);
    IT m, n, k; IT *r = nullptr, *c = nullptr; NT *v = nullptr;
    int rc = ReadASCII_Triples(f.name, m, n, k, r, c, v, noDiag, rnd);
    unlink(f.name.c_str());
    bool absorbed = f.fault == 3;
    if (f.fault) { if (rc >= 0) fail("read-triples:not-reported", "an unusable file was accepted"); }
    else if (rc < 0) fail("read-triples:rejected", "a valid file was rejected");
    else {
        if ((int64_t) m != f.m || (int64_t) n != f.n) fail("read-triples:shape", "%lldx%lld, expected %lldx%lld", (long long) m, (long long) n, (long long) f.m, (long long) f.n);
        std::vector<Entry<NT>> got; for (IT i = 0; i < k; i++) got.push_back({(int64_t) r[i], (int64_t) c[i], v[i]});
        auto want = expand(f, noDiag);
        if (rnd) {
            std::map<std::pair<int64_t, int64_t>, std::multiset<double>> val;
            for (auto &x : got) { if (!(x.v > NT(0))) fail("read-triples:random", "a random value is not positive"); val[{x.r, x.c}].insert((double) x.v); }
            if (f.sym) for (auto &x : val) if (val[{x.first.second, x.first.first}] != x.second) { fail("read-triples:random", "the random values are not symmetric at (%lld,%lld)", (long long) x.first.first, (long long) x.first.second); break; }
            for (auto &x : got) x.v = NT(1); for (auto &x : want) x.v = NT(1);
            std::sort(want.begin(), want.end());
        }
        judge<NT>("read-triples", got, want);
    }
    (void) absorbed;
    delete[] r; delete[] c; delete[] v;
    evaluation(mix64(idx) ^ f.e.size() ^ noDiag, f.e.size() > 1);
}
void io_part_2(long idx, Rng &g) { TYPES(one) }
#elif PART == 3
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    int64_t m = 1 + g.below(50), n = 1 + g.below(50); size_t k = g.chance(1, 12) ? 0 : 1 + g.below(g.chance(1, 3) ? 2000 : 60);
    if (g.chance(1, 60)) { m = 1 + g.below(2000000); n = 1 + g.below(2000000); k = 1 + g.below(100000); count("binary.large"); }
    int fault = g.chance(1, 4) ? 1 + (int) g.below(5) : 0;      // 1 absent, 2 ends early, 3 not even a header, 4 a size of the header is not positive, 5 an entry outside
    setCase("idx=%ld alg=read-binary types=%s dims=%lldx%lld entries=%zu fault=%d", idx, ty, (long long) m, (long long) n, k, fault);
    std::vector<Entry<NT>> e(k); for (auto &x : e) x = {(int64_t) g.below(m), (int64_t) g.below(n), anyVal<NT>(g)};
    std::string name = "b" + std::to_string(idx) + ".bin"; unlink(name.c_str());
    if (fault != 1) {
        std::string s; auto put = [&](const void *p, size_t b) { s.append((const char *) p, b); };
        IT h[3] = {(IT) m, (IT) n, (IT) k};
        if (fault == 4) h[g.below(3)] = std::is_signed<IT>::value && g.chance(1, 2) ? (IT) -(int64_t) (1 + g.below(m * n)) : IT(0);
        if (fault == 5 && k) { auto &x = e[g.below(k)]; bool row = g.chance(1, 2); int64_t lim = row ? m : n, bad = g.chance(1, 2) ? lim + (int64_t) g.below(g.chance(1, 2) ? 2 : 100000) : -1 - (int64_t) g.below(3); (row ? x.r : x.c) = bad; }
        put(h, sizeof h);
        for (auto &x : e) { IT q = (IT) x.r; put(&q, sizeof q); } for (auto &x : e) { IT q = (IT) x.c; put(&q, sizeof q); } for (auto &x : e) put(&x.v, sizeof(NT));
        if (fault == 2) s.resize(sizeof h + g.below(s.size() - sizeof h + (k == 0))); if (fault == 3) s.resize(g.below(sizeof h));
        FILE *o = fopen(name.c_str(), "w"); fwrite(s.data(), 1, s.size(), o); fclose(o);
    }
    CSC<IT, NT> c;
    int rc = ReadBinary(name, c);
    unlink(name.c_str());
    count(fault ? "binary.unusable" : "binary.usable");
    if (fault || k == 0) { if (rc >= 0) fail("read-binary:not-reported", "an unusable file was accepted"); }
    else if (rc < 0) fail("read-binary:rejected", "a valid file was rejected");
    else {
        std::vector<Entry<NT>> got;
        if ((int64_t) c.rows != m || (int64_t) c.cols != n || (size_t) c.nnz != k) { fail("read-binary:shape", "%lldx%lld with %lld entries", (long long) c.rows, (long long) c.cols, (long long) c.nnz); return; }
        for (int64_t j = 0; j < n; j++) for (IT p = c.colptr[j]; p < c.colptr[j + 1]; p++) got.push_back({(int64_t) c.rowids[p], j, c.values[p]});
        std::sort(e.begin(), e.end());
        judge<NT>("read-binary", got, e);
    }
    evaluation(mix64(idx) ^ k, k > 1);
}
void io_part_3(long idx, Rng &g) { TYPES(one) }
#elif PART == 4
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    auto f = make<NT>(g, idx, true);
    describe(f, "read-text-rows", ty, idx);
    if (f.fault) {   // the constructor's way of reporting is to end the program with status 1
        fflush(NULL);
        pid_t p = fork();
        if (p == 0) { CSR<IT, NT> c(f.name); _exit(0); }
        int st = 0; waitpid(p, &st, 0);
        unlink(f.name.c_str());
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("read-rows:accepted", "an unusable file was accepted");
        else if (!WIFEXITED(st) || WEXITSTATUS(st) != 1) fail("read-rows:crash", "an unusable file ended the program with status 0x%x", st);
        evaluation(mix64(idx) ^ f.e.size(), f.e.size() > 1);
        return;
    }
    CSR<IT, NT> c(f.name);
    unlink(f.name.c_str());
    if ((int64_t) c.rows != f.m || (int64_t) c.cols != f.n) { fail("read-rows:shape", "%lldx%lld, expected %lldx%lld", (long long) c.rows, (long long) c.cols, (long long) f.m, (long long) f.n); return; }
    std::vector<Entry<NT>> got;
    for (int64_t i = 0; i < f.m; i++) for (IT p = c.rowptr[i]; p < c.rowptr[i + 1]; p++) got.push_back({i, (int64_t) c.colids[p], c.values[p]});
    if ((size_t) c.nnz != got.size() || c.rowptr[0] != 0) fail("read-rows:offset", "offsets do not span the entries");
    judge<NT>("read-rows", got, expand(f));
    evaluation(mix64(idx) ^ f.e.size(), f.e.size() > 1);
}
void io_part_4(long idx, Rng &g) { TYPES(one) }
#else
#define P(n) void io_part_##n(long, Rng &) __attribute__((weak));
P(1) P(2) P(3) P(4)
int main(int argc, char **argv) {
    vh::init(argc, argv);
    muteCout();
    void (*f[])(long, Rng &) = {io_part_1, io_part_2, io_part_3, io_part_4};
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        if (f[idx % 4]) f[idx % 4](idx / 4, g);
        if (idx % 150 < 4) sample(currentCase());
    }
    return vh::finish();
}
#endif
