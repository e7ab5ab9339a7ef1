// Submatrix extraction from CSC matrices, and bit maps. Built once per PART (1 extraction, 2 bit maps, 0 main).
#include <algorithm>
#include <set>
#include <sys/wait.h>
#include <unistd.h>
#include "CSC.h"
#include "common/repo_mat.hpp"
using namespace vh;

#if PART == 1
template<class IT> static std::vector<IT> ids(Rng &g, int64_t n, bool repeats) {
    std::vector<IT> r; int64_t k = g.chance(1, 8) ? (int64_t) g.below(2) : g.chance(1, 8) ? n : (int64_t) g.below(n + 1);
    if (repeats) for (int64_t i = 0; i < k; i++) r.push_back((IT) g.below(n)); else for (auto x : pick(g, n, k)) r.push_back((IT) x);
    std::sort(r.begin(), r.end()); return r;
}
template<class IT, class NT> static void one(const char *ty, long idx, Rng &g) {
    int64_t m = 1 + (int64_t) g.below(g.chance(1, 10) ? 700 : 70), n = 1 + (int64_t) g.below(g.chance(1, 10) ? 300 : 50);
    bool large = g.chance(1, 200);      // more lines than 16 bits can count
    if (large) { m = g.range(65000, 140000); n = g.range(1, 4); if (g.chance(1, 3)) std::swap(m, n); count("large.matrices"); }
    Mat<NT> a = rndMat<NT>(g, m, n, large && g.chance(1, 2) ? .999 : g.unit(), large ? 0 : (int) g.below(6));
    int how = (int) g.below(3); bool rep = g.chance(1, 3);
    std::vector<IT> ri = ids<IT>(g, m, rep && how != 2), ci = ids<IT>(g, n, rep);
    int refuse = g.chance(1, 12) ? 1 + (int) g.below(2) : 0;    // one id just beyond the end must be refused
    if (refuse == 1) ri.push_back((IT) (m + (int64_t) g.below(2) * 3)); else if (refuse == 2) ci.push_back((IT) (n + (int64_t) g.below(2) * 3));
    ri.shrink_to_fit(); ci.shrink_to_fit();
    const char *name[] = {"SpRef", "SpRef1", "SpRef2"};
    std::string K = name[how];
    setCase("idx=%ld alg=%s types=%s dims=%lldx%lld nnz=%zu rows=%zu cols=%zu repeated=%d beyond=%d", idx, K.c_str(), ty, (long long) m, (long long) n, a.nnz(), ri.size(), ci.size(), rep, refuse);
    CSC<IT, NT> A; fillCSC<IT, NT>(A, a);
    auto extract = [&]() { return how == 0 ? A.SpRef(ri, ci) : how == 1 ? A.SpRef1(ri, ci) : A.SpRef2(ri.data(), (IT) ri.size(), ci.data(), (IT) ci.size()); };
    if (refuse) {
        pid_t p = fork();
        if (!p) { signal(SIGABRT, SIG_DFL); close(2); close(1); auto c = extract(); _exit(c.rows >= 0 ? 3 : 4); }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGABRT) fail(K + ":bounds", "an id beyond the matrix is not refused (status %x)", st);
        count("refusals"); evaluation(mix64(idx), false); return;
    }
    std::vector<std::vector<std::pair<int64_t, NT>>> at(n);
    for (int64_t i = 0; i < m; i++) for (auto &e : a.r[i]) at[e.first].push_back({i, e.second});
    Mat<NT> w((int64_t) ci.size(), (int64_t) ri.size());        // by column
    for (size_t j = 0; j < ci.size(); j++) for (auto &e : at[ci[j]]) { auto q = std::equal_range(ri.begin(), ri.end(), (IT) e.first); for (auto i = q.first; i != q.second; ++i) w.r[j].push_back({(int64_t) (i - ri.begin()), e.second}); }
    CSC<IT, NT> C = extract();
    std::string s = checkCompressed<IT, NT>(C.cols, C.rows, C.nnz, C.colptr, C.rowids, C.values, w, true);
    if (!s.empty()) fail(K + ":" + category(s), "%s", s.c_str());
    Mat<NT> t = transpose(a);
    s = sameStored<IT, NT>(A.cols, A.rows, A.nnz, A.colptr, A.rowids, A.values, t);
    if (!s.empty()) fail(K + ":operand-modified", "%s", s.c_str());
    count("extractions." + K); count("entries", w.nnz()); evaluation(mix64(idx) ^ w.nnz(), w.nnz() > 1 && w.nnz() < a.nnz());
    if (idx % 400 < 4) sample(currentCase());
}
void extractions(long from, long to) {
    for (long idx = from; idx < to; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        switch (g.below(3)) { case 0: one<int32_t, double>("i32f64", idx, g); break; case 1: one<int64_t, uint8_t>("i64u8", idx, g); break; default: one<uint32_t, int64_t>("u32i64", idx, g); }
    }
}
#elif PART == 2
struct Model { uint64_t n; std::set<uint64_t> ones; };
static void full(const char *K, BitMap &b, const Model &m) {
    auto it = m.ones.begin(); long at = b.get_bit(0) ? 0 : b.get_next_bit(0);
    for (; it != m.ones.end(); ++it) { if (at != (long) *it) { fail(std::string("bitmap:") + K, "bit %ld instead of %ld of %llu", at, (long) *it, (unsigned long long) m.n); return; } at = b.get_next_bit(at); }
    if (at != -1) fail(std::string("bitmap:") + K, "bit %ld follows the last one", at);
}
static void history(long idx, Rng &g) {
    const int N = 3; uint64_t top = g.chance(1, 3) ? 130 : 3000; int ops = 1 + (int) g.below(60);
    BitMap *b[N]; Model m[N];
    for (int i = 0; i < N; i++) { m[i].n = g.chance(1, 3) ? 64 * (1 + g.below(4)) : 1 + g.below(top); b[i] = new BitMap(m[i].n); b[i]->reset(); }
    setCase("idx=%ld alg=bitmap sizes=%llu,%llu,%llu operations=%d", idx, (unsigned long long) m[0].n, (unsigned long long) m[1].n, (unsigned long long) m[2].n, ops);
    uint64_t sig = idx;
    for (int o = 0; o < ops; o++) {
        int i = (int) g.below(N), j = (int) g.below(N), k = (int) g.below(10); uint64_t p = g.below(m[i].n);
        if (g.chance(1, 4)) p = std::min<uint64_t>(m[i].n - 1, p / 64 * 64 + (g.chance(1, 2) ? 63 : 0));
        sig = mix64(sig ^ k ^ p);
        switch (k) {
            case 0: case 1: case 2: b[i]->set_bit(p); m[i].ones.insert(p); break;
            case 3: b[i]->set_bit_atomic((long) p); m[i].ones.insert(p); break;
            case 4: if (b[i]->get_bit(p) != (m[i].ones.count(p) > 0)) fail("bitmap:get", "bit %llu of %llu", (unsigned long long) p, (unsigned long long) m[i].n); break;
            case 5: case 6: { auto it = m[i].ones.upper_bound(p); long w = it == m[i].ones.end() ? -1 : (long) *it, r = b[i]->get_next_bit(p); if (r != w) fail("bitmap:next", "after %llu of %llu comes %ld, not %ld", (unsigned long long) p, (unsigned long long) m[i].n, r, w); break; }
            case 7: if (g.chance(1, 3)) { b[i]->reset(); m[i].ones.clear(); } break;
            case 8: *b[i] = *b[j]; m[i] = m[j]; break;
            default:
                if (g.chance(1, 2)) { BitMap *c = new BitMap(*b[j]); delete b[i]; b[i] = c; m[i] = m[j]; }
                else if (m[i].n == m[j].n) { if (i != j) b[i]->copy_from(b[j]); m[i] = m[j]; }
                else { BitMap c; c = *b[j]; *b[i] = c; m[i] = m[j]; }
        }
    }
    for (int i = 0; i < N; i++) { full("content", *b[i], m[i]); sig ^= m[i].ones.size(); delete b[i]; }
    count("bitmap.operations", ops); evaluation(sig, ops > 5);
}
// positions beyond 32 bits
static void wide() {
    setCase("alg=bitmap wide"); uint64_t n = (1ull << 32) + 1000; BitMap b(n);       // fresh pages are zero
    uint64_t p[] = {5, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 900};
    std::fill(b.data() + ((1ull << 32) - 4096) / 64, b.data() + (n + 63) / 64, 0); b.data()[0] = 0;
    for (uint64_t x : p) b.set_bit(x);
    if (b.get_next_bit(p[1]) != (long) p[2] || b.get_next_bit(p[2]) != (long) p[3] || b.get_next_bit(p[3]) != -1 || b.get_next_bit((1ull << 32) + 64) != (long) p[3] || !b.get_bit(p[2])) fail("bitmap:wide", "after 2^32 comes %ld", b.get_next_bit(p[2]));
    count("bitmap.wide"); evaluation(77, true);
}
void bitmaps(long from, long to) {
    if (opt().num("wide", 0)) wide();
    for (long idx = from; idx < to; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx)); history(idx, g);
    }
}
#else
void __attribute__((weak)) extractions(long, long); void __attribute__((weak)) bitmaps(long, long);
int main(int argc, char **argv) {
    vh::init(argc, argv);
    omp_set_num_threads(2);
    if (extractions) extractions(opt().from, opt().cases);
    if (bitmaps) bitmaps(opt().from + 5000000, opt().cases + 5000000);
    return vh::finish();
}
#endif
