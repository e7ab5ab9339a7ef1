// Built once per PART (1 hash, 2 dense, 3 heap, 4 row algorithms, 0 main): a part that no longer compiles is left out.
// Accumulators, heap and row algorithms driven through long histories against set/map models.
#include <map>
#include <numeric>
#include <set>
#include "CSC.h"
#include "CSR.h"
#include "spgemm-blocks/masked-spgemm.h"
#include "common/algs.hpp"
#include "common/repo_mat.hpp"
using namespace vh;
long &outerIdx();

// keys that collide, wrap around and stay below the "empty" marker
template<class K> static K rndKey(Rng &g, int style, int64_t range) {
    switch (style) {
        case 0: return (K) g.below(range);
        case 1: return (K) (g.below(std::max<int64_t>(1, range / 64)) * 64);
        case 2: return (K) (g.below(8) * 4096 + g.below(4));
        case 3: return (K) (13 + 16 * g.below(12));                       // last slot of the smallest table, and wrap
        default: { int64_t top = sizeof(K) == 4 ? (int64_t) 2147483646 : (int64_t) 1 << 40; return (K) (top - (int64_t) g.below(range)); }
    }
}

template<class T> struct Buf {
    size_t size, al; std::byte *p;
    Buf(size_t s, size_t a) : size(s), al(a), p(mallocAligned(s, a)) { memset(p, 0xA5, s); }
    ~Buf() { freeAligned(p); }
};

#if PART == 1
template<class K, class V> static void hashKV(const char *ty, long idx, Rng &g) {
    typedef HashAccumulator<K, void, void> Sym;
    typedef HashAccumulator<K, V, bool> Num;
    size_t cap = g.below(4) == 0 ? 1 + g.below(3) : 1 + g.below(g.chance(1, 8) ? 3000 : 120);
    int style = (int) g.below(5);
    int64_t range = 1 + g.below(cap * 3 + 4);
    setCase("idx=%ld/%ld alg=hash-accumulator types=%s capacity=%zu keys=%d range=%lld", outerIdx(), idx, ty, cap, style, (long long) range);
    Sym sym(cap); Num num(cap);
    auto [s1, a1] = sym.getMemoryRequirement(); auto [s2, a2] = num.getMemoryRequirement();
    Buf<int> b(std::max(s1, s2), std::lcm(a1, a2));
    size_t dirty = b.size, ops = 0, erased = 0, rows = 0;
    for (int phase = 0; phase < 2; phase++) {
        if (phase == 0) sym.setBuffer(b.p, b.size, dirty); else num.setBuffer(b.p, b.size, dirty);
        int nrows = 3 + (int) g.below(12);
        for (int row = 0; row < nrows; row++, rows++) {
            size_t n = 1 + g.below(g.chance(1, 3) ? cap : std::min<size_t>(cap, 10));
            if (phase == 0) {
                sym.resize(n);
                std::set<K> m; std::vector<K> tracked;
                bool track = g.chance(1, 2);
                for (size_t k = 0; k < 4 * n + 4; k++) {
                    K key = rndKey<K>(g, style, range); ops++;
                    unsigned op = (unsigned) g.below(track ? 2 : 3);
                    if (op == 0 && (m.size() < n)) {
                        bool ins = track ? sym.template insert<true>(key) : sym.template insert<false>(key);
                        if (ins != (m.count(key) == 0)) { fail("hash-key:insert", "row %d: insert(%lld) returned %d", row, (long long) key, ins); return; }
                        m.insert(key);
                    } else if (op == 1) {
                        bool f = sym.find(key) != Sym::NOT_FOUND;
                        if (f != (m.count(key) != 0)) { fail("hash-key:find", "row %d: find(%lld) says %d", row, (long long) key, f); return; }
                        if (f && sym[sym.find(key)].key != key) { fail("hash-key:find-slot", "row %d: slot of %lld holds another key", row, (long long) key); return; }
                    } else if (op == 2) {
                        bool e = sym.erase(key); erased += e;
                        if (e != (m.erase(key) != 0)) { fail("hash-key:erase", "row %d: erase(%lld) returned %d", row, (long long) key, e); return; }
                    }
                }
                for (K k : m) if (sym.find(k) == Sym::NOT_FOUND) { fail("hash-key:lost", "row %d: key %lld was lost", row, (long long) k); return; }
                if (track) sym.resetStatesList(); else sym.resetStates();
                for (int k = 0; k < 20; k++) { K key = rndKey<K>(g, style, range); if (sym.find(key) != Sym::NOT_FOUND) { fail("hash-key:stale", "row %d: key %lld survives the reset", row, (long long) key); return; } }
                for (K k : m) if (sym.find(k) != Sym::NOT_FOUND) { fail("hash-key:stale", "row %d: key %lld survives the reset", row, (long long) k); return; }
            } else {
                num.resize(n);
                bool compl_ = g.chance(1, 2);
                std::map<K, std::pair<V, bool>> m;      // value, set
                std::vector<K> order, maskOrder;
                size_t nm = compl_ ? g.below(n) : n;
                for (size_t k = 0; k < nm; k++) {
                    K key = rndKey<K>(g, style, range);
                    if (m.count(key)) { if (num.insert(key)) { fail("hash-value:insert", "row %d: second insert of %lld succeeded", row, (long long) key); return; } continue; }
                    if (!num.insert(key)) { fail("hash-value:insert", "row %d: insert of %lld refused", row, (long long) key); return; }
                    m[key] = {V(), false}; maskOrder.push_back(key);
                }
                for (size_t k = 0; k < 3 * n + 3; k++) {
                    K key = rndKey<K>(g, style, range); V v = (V) (1 + g.below(1000)); ops++;
                    auto it = m.find(key);
                    if (compl_) {
                        auto slot = num.findIdx(key);
                        auto &e = num[slot];
                        if ((e.key == Num::EMPTY) != (it == m.end())) { fail("hash-value:findIdx", "row %d: key %lld %s", row, (long long) key, it == m.end() ? "appears from nowhere" : "was lost"); return; }
                        if (it == m.end()) {
                            if (m.size() >= n) continue;
                            if (g.chance(1, 2)) num.template insert<true>(slot, key, v, true);
                            else if (!num.template insert<true>(key, v, true)) { fail("hash-value:insert", "row %d: insert of %lld refused", row, (long long) key); return; }
                            m[key] = {v, true}; order.push_back(key);
                        } else if (it->second.second) { e.value1 = e.value1 + v; it->second.first += v; }
                        else if (e.value2) { fail("hash-value:flag", "row %d: mask key %lld became a value", row, (long long) key); return; }
                    } else {
                        auto slot = num.find(key);
                        if ((slot == Num::NOT_FOUND) != (it == m.end())) { fail("hash-value:find", "row %d: key %lld %s", row, (long long) key, it == m.end() ? "appears from nowhere" : "was lost"); return; }
                        if (it == m.end()) continue;
                        auto &e = num[slot];
                        if (e.key != key || e.value2 != it->second.second) { fail("hash-value:slot", "row %d: slot of %lld is wrong", row, (long long) key); return; }
                        if (e.value2) { e.value1 = e.value1 + v; it->second.first += v; } else { e.value1 = v; e.value2 = true; it->second = {v, true}; }
                    }
                }
                std::vector<K> ids(n + 2); std::vector<V> vals(n + 2);
                K *ip = ids.data(); V *vp = vals.data();
                std::vector<std::pair<K, V>> want, got;
                bool ordered = true;
                if (compl_) {
                    bool sorted = g.chance(1, 2);
                    if (sorted) { std::sort(order.begin(), order.end()); num.template gatherList<true>(ip, vp); } else num.template gatherList<false>(ip, vp);
                    for (K k : order) want.push_back({k, m[k].first});
                    for (K k : maskOrder) if (!num.erase(k)) { fail("hash-value:mask-erase", "row %d: mask key %lld cannot be erased", row, (long long) k); return; }
                } else if (g.chance(1, 4)) {
                    num.gather(ip, vp); ordered = false;
                    for (auto &e : m) if (e.second.second) want.push_back({e.first, e.second.first});
                } else {
                    num.gather(ip, vp, maskOrder.begin(), maskOrder.end());
                    for (K k : maskOrder) if (m[k].second) want.push_back({k, m[k].first});
                }
                for (K *p = ids.data(); p != ip; p++) got.push_back({*p, vals[p - ids.data()]});
                if (!ordered) std::sort(got.begin(), got.end());
                if (ip - ids.data() != vp - vals.data() || got != want) { fail("hash-value:gather", "row %d: gathered %zu pairs, expected %zu (or other values/order)", row, got.size(), want.size()); return; }
                for (auto &e : m) if (num.find(e.first) != Num::NOT_FOUND) { fail("hash-value:stale", "row %d: key %lld survives the row", row, (long long) e.first); return; }
            }
        }
        dirty = phase == 0 ? sym.releaseBuffer() : num.releaseBuffer();
        if (dirty > b.size) { fail("hash:dirty", "phase %d: %zu dirty bytes of %zu", phase, dirty, b.size); return; }
        for (size_t i = dirty; i < b.size; i++) if (b.p[i] != std::byte(0xFF)) { fail("hash:dirty", "byte %zu of %zu is not clean although only %zu are declared dirty", i, b.size, dirty); return; }
    }
    count("operations.hash", ops); count("hash.erased", erased); count("hash.rows", rows);
    evaluation(mix64(idx * 3 + sizeof(K)), erased > 0);
}

void acc_part_1(long idx, Rng &g) {
    switch (idx % 4) {
        case 0: hashKV<int32_t, uint64_t>("i32u64", idx, g); break;
        case 1: hashKV<uint32_t, int32_t>("u32i32", idx, g); break;
        case 2: hashKV<int64_t, double>("i64f64", idx, g); break;
        default: hashKV<uint64_t, float>("u64f32", idx, g); break;
    }
}
#elif PART == 2
template<template<class, class, bool> class Acc, class K, class V, bool Compl> static void msa(const char *nm, long idx, Rng &g) {
    typedef Acc<K, void, Compl> Sym; typedef Acc<K, V, Compl> Num;
    size_t n = 1 + g.below(g.chance(1, 5) ? 5 : 300);
    setCase("idx=%ld/%ld alg=%s complemented=%d columns=%zu", outerIdx(), idx, nm, Compl, n);
    Sym sym(n); Num num(n);
    auto [s1, a1] = sym.getMemoryRequirement(); auto [s2, a2] = num.getMemoryRequirement();
    Buf<int> b(std::max(s1, s2), std::lcm(a1, a2));
    size_t dirty = b.size, entries = 0;
    sym.setBuffer(b.p, b.size, dirty);
    auto keys = [&](size_t k) { auto v = pick(g, n, (int64_t) std::min(k, n)); for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[g.below(i)]); return v; };
    for (int row = 0; row < 12; row++) {
        auto mask = keys(g.below(n + 1)); std::set<K> ms(mask.begin(), mask.end());
        std::set<K> hit;
        size_t cnt = 0;
        if (!Compl) for (K k : mask) sym.setAllowed(k);
        for (size_t q = 0; q < n; q++) {
            K k = (K) g.below(n);
            if (!Compl) {
                bool e = sym.erase(k), w = ms.count(k) && !hit.count(k);
                if (e != w) { fail(std::string(nm) + ":erase", "row %d: erase(%lld) returned %d", row, (long long) k, e); return; }
                cnt += e;
            } else {
                bool f = sym.getState(k) != Sym::INITIALIZED;
                if (f != !hit.count(k)) { fail(std::string(nm) + ":state", "row %d: state of %lld", row, (long long) k); return; }
                if (f) { sym.setInitialized(k); cnt++; }
            }
            hit.insert(k);
        }
        if (!Compl) for (K k : mask) sym.clear(k);
        else { for (K k : mask) if (sym.erase(k)) cnt--; sym.resetStates(); }
        size_t want = 0; for (K k : hit) want += (ms.count(k) != 0) != Compl;
        if (cnt != want) { fail(std::string(nm) + ":count", "row %d: counted %zu, expected %zu", row, cnt, want); return; }
        for (size_t k = 0; k < n; k++) if (sym.getState(k) != Sym::DEFAULT_STATE) { fail(std::string(nm) + ":stale", "row %d: state of %zu survives the row", row, k); return; }
    }
    dirty = sym.releaseBuffer();
    num.setBuffer(b.p, b.size, dirty);
    for (size_t k = 0; k < n; k++) if (num.getState(k) != Num::DEFAULT_STATE) { fail(std::string(nm) + ":handover", "state of %zu is not the default after the symbolic phase", k); return; }
    for (int row = 0; row < 12; row++) {
        auto mask = keys(g.below(n + 1)); std::set<K> ms(mask.begin(), mask.end());
        if (Compl) for (K k : mask) num.setNotAllowed(k); else for (K k : mask) num.setAllowed(k);
        std::map<K, V> want; std::vector<K> order;
        for (size_t q = 0; q < 2 * n; q++) {
            K k = (K) g.below(n); V v = (V) (1 + g.below(99));
            bool allowed = (ms.count(k) != 0) != Compl;
            auto s = num.getState(k);
            if ((s == Num::NOT_ALLOWED) == allowed || (allowed && (s == Num::INITIALIZED) != (want.count(k) != 0))) { fail(std::string(nm) + ":state", "row %d: state of %lld is %d", row, (long long) k, (int) s); return; }
            if (!allowed) continue;
            V *slot;
            if constexpr (std::is_same_v<Num, MaskedSparseAccumulator1A<K, V, Compl>>) slot = &num[k].value; else slot = &num.getValue(k);
            if (want.count(k)) { *slot = *slot + v; want[k] += v; } else {
                *slot = v; want[k] = v; order.push_back(k);
                if (Compl) num.setInitialized(k); else num.getState(k) = Num::INITIALIZED;
            }
        }
        entries += want.size();
        if constexpr (Compl) {
            std::vector<K> ids(n + 1); std::vector<V> vals(n + 1); K *ip = ids.data(); V *vp = vals.data();
            bool sorted = g.chance(1, 2);
            if (sorted) { num.template gather<true>(ip, vp); std::sort(order.begin(), order.end()); } else num.template gather<false>(ip, vp);
            bool ok = size_t(ip - ids.data()) == order.size() && size_t(vp - vals.data()) == order.size();
            for (size_t i = 0; ok && i < order.size(); i++) ok = ids[i] == order[i] && vals[i] == want[order[i]];
            if (!ok) { fail(std::string(nm) + ":gather", "row %d: gathered %zd entries, expected %zu (or other order/values)", row, ip - ids.data(), order.size()); return; }
            num.resetStates(mask.begin(), mask.end());
        } else {
            for (auto &e : want) {
                V got; if constexpr (std::is_same_v<Num, MaskedSparseAccumulator1A<K, V, Compl>>) got = num[e.first].value; else got = num.getValue(e.first);
                if (got != e.second) { fail(std::string(nm) + ":value", "row %d: value of %lld", row, (long long) e.first); return; }
            }
            for (K k : mask) num.clear(k);
        }
        for (size_t k = 0; k < n; k++) if (num.getState(k) != Num::DEFAULT_STATE) { fail(std::string(nm) + ":stale", "row %d: state of %zu survives the row", row, k); return; }
    }
    count("operations.msa", 24 * n); evaluation(mix64(idx * 7 + Compl), entries > 0);
}

void acc_part_2(long idx, Rng &g) {
    switch (idx % 4) {
        case 0: msa<MaskedSparseAccumulator1A, int32_t, double, false>("msa1a", idx, g); break;
        case 1: msa<MaskedSparseAccumulator2A, uint32_t, int64_t, false>("msa2a", idx, g); break;
        case 2: msa<MaskedSparseAccumulator1A, int64_t, int32_t, true>("cmsa1a", idx, g); break;
        default: msa<MaskedSparseAccumulator2A, int32_t, double, true>("cmsa2a", idx, g); break;
    }
}
#elif PART == 3
static void heapTest(long idx, Rng &g) {
    typedef int32_t IT;
    size_t n = 1 + g.below(60);
    setCase("idx=%ld/%ld alg=heap-accumulator entries=%zu", outerIdx(), idx, n);
    Heap<IT> h((IT) n);
    auto [sz, al] = h.getMemoryRequirement();
    Buf<int> b(sz, al);
    h.setBuffer(b.p, b.size, b.size);
    for (int round = 0; round < 5; round++) {
        std::multiset<std::array<IT, 3>> m;
        std::multiset<IT> keys;
        size_t k = g.below(n + 1), dup = 1 + g.below(40);
        for (size_t i = 0; i < k; i++) { IT key = (IT) g.below(dup * 3), r = (IT) i, l = (IT) g.below(1000); h.append(key, r, l); m.insert({key, r, l}); keys.insert(key); }
        h.make();
        size_t steps = 0;
        while (!h.isEmpty()) {
            auto &t = h.top();
            if (keys.empty() || t.key != *keys.begin() || !m.count({t.key, t.runr, t.loc})) { fail("heap:top", "round %d: top is (%d,%d,%d), smallest key %d", round, t.key, t.runr, t.loc, keys.empty() ? -1 : *keys.begin()); return; }
            m.erase(m.find({t.key, t.runr, t.loc})); keys.erase(keys.find(t.key));
            if (steps++ < 3 * n && g.chance(3, 5)) { t.key += (IT) g.below(9); t.loc++; m.insert({t.key, t.runr, t.loc}); keys.insert(t.key); h.sinkRoot(); }
            else if (g.chance(1, 60)) { h.clear(); keys.clear(); m.clear(); }
            else h.pop();
        }
        if (!keys.empty()) { fail("heap:lost", "round %d: %zu elements lost", round, keys.size()); return; }
        count("operations.heap", steps);
    }
    size_t dirty = h.releaseBuffer();
    for (size_t i = dirty; i < b.size; i++) if (b.p[i] != std::byte(0xFF)) { fail("heap:dirty", "byte %zu of %zu is not clean although only %zu are declared dirty", i, b.size, dirty); return; }
    evaluation(mix64(idx * 11), n > 2);
}

void acc_part_3(long idx, Rng &g) { heapTest(idx, g); }
#elif PART == 4
// Row algorithms: rows in any order and repeated, symbolic then numeric phase on the same buffer
template<class Alg, class IT, class NT> static void rowAlg(const char *nm, bool sorted, bool needSorted, long idx, Rng &g) {
    int fam = (int) g.below(10);
    auto c = makeCase<NT>(mix64(opt().seed * 77 + idx), fam);
    if (needSorted) { for (auto *m : {&c.A, &c.B, &c.M}) for (auto &r : m->r) std::sort(r.begin(), r.end(), [](auto &x, auto &y) { return x.first < y.first; }); }
    int sr = (int) g.below(SR_COUNT);
    MulOp<NT> mul{sr}; AddOp<NT> add{sr};
    setCase("idx=%ld/%ld alg=row-%s family=%s semiring=%s dims=%lldx%lldx%lld", outerIdx(), idx, nm, famName(fam), srName(sr), (long long) c.A.rows, (long long) c.A.cols, (long long) c.B.cols);
    if (c.B.cols > 200000 || c.A.rows > 3000) return;
    CSR<IT, NT> A, B, M; fillCSR<IT, NT>(A, c.A); fillCSR<IT, NT>(B, c.B); fillCSR<IT, NT>(M, c.M);
    IT ma = 0, mm = 0, mf = 0; std::vector<IT> flops(c.A.rows), use;
    for (int64_t i = 0; i < c.A.rows; i++) {
        for (auto &e : c.A.r[i]) flops[i] += (IT) c.B.r[e.first].size();
        ma = std::max<IT>(ma, c.A.r[i].size()); mm = std::max<IT>(mm, c.M.r[i].size()); mf = std::max<IT>(mf, flops[i]);
        if (flops[i] && (Alg::COMPLEMENTED || !c.M.r[i].empty())) use.push_back((IT) i);
    }
    if (use.empty()) return;
    Alg alg{(IT) c.B.cols, ma, mm, mf};
    auto [sz, al] = alg.getMemoryRequirement();
    Buf<int> b(sz, al);
    size_t dirty = sz;
    auto ref = [&](IT i) {
        std::map<int64_t, std::vector<NT>> terms; std::set<int64_t> ms; for (auto &e : c.M.r[i]) ms.insert(e.first);
        std::map<int64_t, NT> out;
        for (auto &a : c.A.r[i]) for (auto &x : c.B.r[a.first]) if ((ms.count(x.first) != 0) != Alg::COMPLEMENTED) {
            NT v = mul(a.second, x.second); auto it = out.find(x.first);
            if (it == out.end()) out[x.first] = v; else it->second = add(it->second, v);
        }
        return out;
    };
    std::vector<IT> nv(c.A.rows, 0);
    alg.getSymbolicAccumulator().setBuffer(b.p, sz, dirty);
    size_t calls = 0, entries = 0;
    std::vector<std::map<int64_t, NT>> R(c.A.rows); std::vector<char> have(c.A.rows, 0);
    auto want = [&](IT i) -> std::map<int64_t, NT> & { if (!have[i]) { R[i] = ref(i); have[i] = 1; } return R[i]; };
    size_t reps = std::min<size_t>(use.size() * 2, 400);
    for (size_t k = 0; k < reps; k++) {
        IT i = use[g.below(use.size())], f = flops[i];
        nv[i] = 123456;
        alg.symbolicRow(A, B, M, i, nv.data(), f); calls++;
        if ((size_t) nv[i] != want(i).size()) { fail(std::string(nm) + ":row-count", "row %lld: symbolic phase counts %lld, expected %zu", (long long) i, (long long) nv[i], want(i).size()); return; }
    }
    auto declared = [&](const char *phase) {
        if (dirty > sz) { fail(std::string(nm) + ":dirty", "%s phase: %zu dirty bytes of %zu", phase, dirty, (size_t) sz); return false; }
        for (size_t i = dirty; i < sz; i++) if (b.p[i] != std::byte(0xFF)) { fail(std::string(nm) + ":dirty", "%s phase: byte %zu of %zu is not clean although only %zu are declared dirty", phase, i, (size_t) sz, dirty); return false; }
        count("buffers.released"); count("bytes.clean", sz - dirty);
        return true;
    };
    dirty = alg.getSymbolicAccumulator().releaseBuffer();
    if (!declared("symbolic")) return;
    alg.getNumericAccumulator().setBuffer(b.p, sz, dirty);
    for (size_t k = 0; k < reps; k++) {
        IT i = use[g.below(use.size())]; auto &w = want(i);
        bool onePhase = g.chance(1, 2);
        if (!onePhase && w.empty()) continue;                     // the two-phase driver skips rows without entries
        IT f = onePhase ? flops[i] : (IT) w.size();
        // the drivers provide min(flops, mask size) entries in one phase and exactly the row in two phases
        size_t room = onePhase ? (Alg::COMPLEMENTED ? (size_t) flops[i] : std::min<size_t>(flops[i], c.M.r[i].size())) : w.size();
        room = std::max<size_t>(room, 1);
        IT *ids = (IT *) malloc(sizeof(IT) * room), *ip = ids; NT *vals = (NT *) malloc(sizeof(NT) * room), *vp = vals;
        alg.numericRow(A, B, M, mul, add, i, ip, vp, f); calls++; entries += w.size();
        size_t n = ip - ids;
        std::string bad;
        if (n != w.size() || vp - vals != ip - ids) bad = "produces " + std::to_string(n) + " entries, expected " + std::to_string(w.size());
        std::set<int64_t> seenIds;
        for (size_t q = 0; bad.empty() && q < n; q++) {
            auto it = w.find((int64_t) ids[q]);
            if (it == w.end() || !seenIds.insert(ids[q]).second) bad = "produces id " + std::to_string(ids[q]) + " wrongly";
            else if (!sameVal(vals[q], it->second)) bad = "wrong value at id " + std::to_string(ids[q]);
            else if (sorted && q && !(ids[q - 1] < ids[q])) bad = "unsorted output";
        }
        free(ids); free(vals);
        if (!bad.empty()) { fail(std::string(nm) + ":row", "row %lld (%s): %s", (long long) i, onePhase ? "one-phase" : "two-phase", bad.c_str()); return; }
    }
    dirty = alg.getNumericAccumulator().releaseBuffer();
    if (!declared("numeric")) return;
    count("calls.row-algorithms", calls); count("entries", entries);
    evaluation(mix64(idx) ^ hashMat(c.A) ^ sr, entries > 0 && use.size() > 1);
}

template<class IT, class NT> static void rows(long idx, Rng &g) {
    switch (idx % 16) {
        case 0: rowAlg<typename MSA1A<false, false>::template Impl<IT, NT>, IT, NT>("msa1a", false, false, idx, g); break;
        case 1: rowAlg<typename MSA2A<false, false>::template Impl<IT, NT>, IT, NT>("msa2a", false, false, idx, g); break;
        case 2: rowAlg<typename MSA1A<true, false>::template Impl<IT, NT>, IT, NT>("cmsa1a", false, false, idx, g); break;
        case 3: rowAlg<typename MSA2A<true, true>::template Impl<IT, NT>, IT, NT>("cmsa2a-sorted", true, false, idx, g); break;
        case 4: rowAlg<typename MSA1A<true, true>::template Impl<IT, NT>, IT, NT>("cmsa1a-sorted", true, false, idx, g); break;
        case 5: rowAlg<typename MSA2A<true, false>::template Impl<IT, NT>, IT, NT>("cmsa2a", false, false, idx, g); break;
        case 6: case 7: rowAlg<typename MaskedHash<false, false>::template Impl<IT, NT>, IT, NT>("hash", false, false, idx, g); break;
        case 8: rowAlg<typename MaskedHash<true, false>::template Impl<IT, NT>, IT, NT>("chash", false, false, idx, g); break;
        case 9: rowAlg<typename MaskedHash<true, true>::template Impl<IT, NT>, IT, NT>("chash-sorted", true, false, idx, g); break;
        case 10: rowAlg<typename MCA<false, false>::template Impl<IT, NT>, IT, NT>("mca", true, true, idx, g); break;
        case 11: rowAlg<typename MaskedHeap<false, true, 0>::template Impl<IT, NT>, IT, NT>("heap0", true, true, idx, g); break;
        case 12: rowAlg<typename MaskedHeap<false, true, 1>::template Impl<IT, NT>, IT, NT>("heap1", true, true, idx, g); break;
        case 13: rowAlg<typename MaskedHeap<false, true, MaskedHeapDot>::template Impl<IT, NT>, IT, NT>("heapdot", true, true, idx, g); break;
        case 14: rowAlg<typename MaskedHeap<false, true, 3>::template Impl<IT, NT>, IT, NT>("heap3", true, true, idx, g); break;
        default: rowAlg<typename MaskedHeap<true, true, 0>::template Impl<IT, NT>, IT, NT>("cheap", true, true, idx, g); break;
    }
}

void acc_part_4(long idx, Rng &g) { if ((idx / 16) % 2) rows<int32_t, uint64_t>(idx, g); else rows<uint64_t, double>(idx, g); }
#else
void acc_part_1(long, Rng &) __attribute__((weak));
void acc_part_2(long, Rng &) __attribute__((weak));
void acc_part_3(long, Rng &) __attribute__((weak));
void acc_part_4(long, Rng &) __attribute__((weak));
long &outerIdx() { static long i; return i; }
int main(int argc, char **argv) {
    vh::init(argc, argv);
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        outerIdx() = idx;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        long k = idx % 16, r = idx / 16;
        if (k < 4) { if (acc_part_1) acc_part_1(r * 4 + k, g); }
        else if (k < 8) { if (acc_part_2) acc_part_2(r * 4 + k - 4, g); }
        else if (k < 9) { if (acc_part_3) acc_part_3(r, g); }
        else if (acc_part_4) acc_part_4(r * 7 + k - 9, g);
        if (idx % 200 < 8) sample(currentCase());
    }
    return vh::finish();
}
#endif
