// The sorting routines the kernels and samples rely on.
// Built once per PART (1 radix, 2 pdqsort, 3/4 vergesort (single header / split headers), 5 gfx::timsort, 6 tim::timsort, 7 key-value merge sort, 0 main).
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
#if PART == 1
#include "radix_sort/radix_sort.hpp"
#elif PART == 2
#include "pdqsort/pdqsort.h"
#elif PART == 3
#include "vergesort/vergesort.h"
#elif PART == 4
#include "vergesort/include/vergesort/vergesort.h"
#elif PART == 5
#include "cpp-TimSort/include/gfx/timsort.hpp"
#elif PART == 6
#include "timsort-cpp/include/tim/timsort.h"
#elif PART == 7
#include "utility.h"
#endif
#include "common/vh.hpp"
using namespace vh;

namespace {
static const char *PAT[] = {"random", "few", "sorted", "reversed", "organ", "runs", "sawtooth", "nearly", "equal", "blocks", "tail", "swapped", "descruns", "interleave", "gallop", "head"};

std::vector<int64_t> keys(size_t n, Rng &g, std::string &pat) {
    std::vector<int64_t> k(n);
    size_t p = g.below(16); pat = PAT[p];
    int64_t range = g.chance(1, 3) ? 8 : g.chance(1, 2) ? (int64_t) n + 1 : (int64_t) 1 << 31;
    auto rnd = [&] { return g.range(-range, range); };
    size_t step = 1 + g.below(n / 3 + 3);
    for (size_t i = 0; i < n; i++) switch (p) {
        case 0: k[i] = rnd(); break;
        case 1: k[i] = (int64_t) g.below(1 + g.below(4)); break;
        case 2: k[i] = (int64_t) i; break;
        case 3: k[i] = (int64_t) (n - i); break;
        case 4: k[i] = (int64_t) std::min(i, n - i); break;
        case 5: k[i] = i % step == 0 ? rnd() : k[i - 1] + (int64_t) g.below(3); break;
        case 6: k[i] = (int64_t) (i % step); break;
        case 7: k[i] = (int64_t) i + g.range(-3, 3); break;
        case 8: k[i] = 5; break;
        case 9: k[i] = (int64_t) (i / step) * (i % 2 ? 1 : -1); break;
        case 10: k[i] = i + step < n ? (int64_t) i : rnd(); break;
        case 11: k[i] = (int64_t) i; break;
        case 12: k[i] = i % step == 0 ? rnd() : k[i - 1] - (int64_t) g.below(2); break;
        case 13: k[i] = i < n / 2 ? (int64_t) (2 * i) : (int64_t) (2 * (i - n / 2) + 1); break;
        case 14: k[i] = i < n / 2 ? (int64_t) (i % step < step / 2 ? i : i + n) : (int64_t) (i - n / 2) * 2; break;
        default: k[i] = i < step ? rnd() : (int64_t) i; break;
    }
    if (p == 14 && n) { std::sort(k.begin(), k.begin() + n / 2); std::sort(k.begin() + n / 2, k.end()); }
    if (p == 11) for (size_t s = 0; s < 1 + n / 50 && n; s++) std::swap(k[g.below(n)], k[g.below(n)]);
    return k;
}

size_t size(Rng &g, bool big) {
    static const size_t edge[] = {0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 23, 24, 25, 31, 32, 33, 63, 64, 65, 79, 80, 81, 82, 127, 128, 129, 130, 191, 192, 193, 255, 256, 257, 258, 511, 512, 513, 1023, 1024, 1025};
    if (big) { static const size_t b[] = {65535, 65536, 65537, 70000, 100000}; return b[g.below(5)]; }
    if (g.chance(1, 2)) return edge[g.below(sizeof edge / sizeof *edge)];
    return g.below(g.chance(1, 3) ? 3000 : 300);
}

// ---- elements that notice misuse ----
struct Bad { uint64_t dead = 0, self = 0; };
Bad bad;
template<int P> struct Item {           // copyable; key and identity
    int64_t key; int id;
};
template<int P> struct Mv {             // move-only; knows whether it holds a value
    int64_t key; int id; std::unique_ptr<int> own;
    explicit Mv(int64_t k = 0, int i = 0) : key(k), id(i), own(new int(i)) {}
    Mv(Mv &&o) noexcept : key(o.key), id(o.id), own(std::move(o.own)) { o.key = -777777777777; }
    Mv &operator=(Mv &&o) noexcept {
        if (this == &o) { bad.self++; return *this; }
        key = o.key; id = o.id; own = std::move(o.own); o.key = -777777777777; return *this;
    }
};
// a natural order that has nothing to do with the order asked for
template<int P> bool operator<(const Item<P> &a, const Item<P> &b) { return (a.id * 2654435761u) < (b.id * 2654435761u); }
template<int P> bool operator>(const Item<P> &a, const Item<P> &b) { return b < a; }
template<int P> bool operator<=(const Item<P> &a, const Item<P> &b) { return !(b < a); }
template<int P> bool operator>=(const Item<P> &a, const Item<P> &b) { return !(a < b); }
template<int P> bool operator==(const Item<P> &a, const Item<P> &b) { return a.id == b.id; }
template<int P> bool operator<(const Mv<P> &a, const Mv<P> &b) { return (a.id * 2654435761u) < (b.id * 2654435761u); }
template<int P> bool operator>(const Mv<P> &a, const Mv<P> &b) { return b < a; }
template<int P> bool operator<=(const Mv<P> &a, const Mv<P> &b) { return !(b < a); }
template<int P> bool operator>=(const Mv<P> &a, const Mv<P> &b) { return !(a < b); }
template<int P> bool operator==(const Mv<P> &a, const Mv<P> &b) { return a.id == b.id; }
template<int P> uint64_t &ncmp() { static uint64_t n; return n; }
template<class T> int64_t keyOf(const T &t) { return t.key; }
template<int P> struct Less {
    bool rev;
    bool operator()(const Item<P> &a, const Item<P> &b) const { ncmp<P>()++; return rev ? b.key < a.key : a.key < b.key; }
    bool operator()(const Mv<P> &a, const Mv<P> &b) const {
        ncmp<P>()++;
        if (!a.own || !b.own) bad.dead++;
        return rev ? b.key < a.key : a.key < b.key;
    }
};

struct Bound { size_t base = 0; double c = 0; };

// sorted order, same elements, ties in order (stable), nothing outside
template<class T> void judge(const char *alg, const std::vector<int64_t> &in, const T *out, bool rev, bool stable) {
    size_t n = in.size();
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        int id = out[i].id;
        if (id < 0 || (size_t) id >= n || seen[id]) { fail((std::string(alg) + ":permutation").c_str(), "element %d at %zu of %zu lost or repeated", id, i, n); return; }
        seen[id] = 1;
        if (out[i].key != in[id]) { fail((std::string(alg) + ":value").c_str(), "element %d changed from %ld to %ld", id, (long) in[id], (long) out[i].key); return; }
        if (i) {
            int64_t a = out[i - 1].key, b = out[i].key;
            if (rev ? a < b : b < a) { fail((std::string(alg) + ":order").c_str(), "position %zu of %zu: %ld before %ld", i, n, (long) a, (long) b); return; }
            if (stable && a == b && out[i - 1].id > id) { fail((std::string(alg) + ":stability").c_str(), "position %zu of %zu: equal elements %d and %d changed places", i, n, out[i - 1].id, id); return; }
        }
    }
}

template<int P, class Sort> void sortItems(const char *alg, long idx, Rng &g, bool stable, double cbound, Sort &&sort) {
    size_t n = size(g, false); std::string pat; auto k = keys(n, g, pat);
    bool rev = g.chance(1, 3);
    setCase("idx=%ld alg=%s items n=%zu pattern=%s reversed=%d", idx, alg, n, pat.c_str(), rev);
    std::unique_ptr<Item<P>[]> a(new Item<P>[n]);          // exactly n elements: the sanitizer guards both ends
    for (size_t i = 0; i < n; i++) a[i] = {k[i], (int) i};
    ncmp<P>() = 0;
    sort(a.get(), a.get() + n, Less<P>{rev});
    judge(alg, k, a.get(), rev, stable);
    double lim = cbound * (n + 1) * (std::log2((double) n + 2) + 1) + 64;
    if (cbound > 0 && ncmp<P>() > lim) fail((std::string(alg) + ":comparisons").c_str(), "%lu comparisons for %zu elements", (unsigned long) ncmp<P>(), n);
    if (n > 64) maxi("comparisons.per.nlogn.permille", (uint64_t) (1000.0 * ncmp<P>() / (n * std::log2((double) n))));
    count("elements", n); count("comparisons", ncmp<P>()); count("pattern." + pat);
    evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
template<int P, class Sort> void sortMoveOnly(const char *alg, long idx, Rng &g, bool stable, Sort &&sort) {
    size_t n = size(g, false); std::string pat; auto k = keys(n, g, pat);
    bool rev = g.chance(1, 3);
    setCase("idx=%ld alg=%s move-only n=%zu pattern=%s reversed=%d", idx, alg, n, pat.c_str(), rev);
    bad = Bad();
    std::unique_ptr<Mv<P>[]> a(new Mv<P>[n]);
    for (size_t i = 0; i < n; i++) a[i] = Mv<P>(k[i], (int) i);
    bad = Bad();
    sort(a.get(), a.get() + n, Less<P>{rev});
    if (bad.dead) fail((std::string(alg) + ":moved-from").c_str(), "%lu comparisons of elements that had been moved away", (unsigned long) bad.dead);
    for (size_t i = 0; i < n; i++) if (!a[i].own || *a[i].own != a[i].id) { fail((std::string(alg) + ":ownership").c_str(), "position %zu of %zu lost what it owned", i, n); break; }
    judge(alg, k, a.get(), rev, stable);
    count("elements", n); count("move-only.cases"); count("pattern." + pat);
    evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
template<class T, class Sort> void sortPlain(const char *alg, const char *ty, long idx, Rng &g, Sort &&sort) {
    size_t n = size(g, false); std::string pat; auto k = keys(n, g, pat);
    setCase("idx=%ld alg=%s %s n=%zu pattern=%s", idx, alg, ty, n, pat.c_str());
    std::unique_ptr<T[]> a(new T[n]); std::vector<T> ref(n);
    for (size_t i = 0; i < n; i++) a[i] = ref[i] = (T) k[i];
    std::sort(ref.begin(), ref.end());
    sort(a.get(), a.get() + n);
    for (size_t i = 0; i < n; i++) if (a[i] != ref[i]) { fail((std::string(alg) + ":plain:" + ty).c_str(), "position %zu of %zu differs from the sorted sequence", i, n); break; }
    count("elements", n); count("pattern." + pat);
    evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
// an input chosen while the sort runs so as to make it compare as often as possible (McIlroy)
template<int P, class Sort> void killer(const char *alg, long idx, Rng &g, double cbound, Sort &&sort) {
    size_t n = 100 + g.below(1500); int64_t gas = (int64_t) n, solid = 0, cand = 0;
    setCase("idx=%ld alg=%s adversary n=%zu", idx, alg, n);
    std::vector<int64_t> val(n, gas);
    std::vector<int> a(n); for (size_t i = 0; i < n; i++) a[i] = (int) i;
    uint64_t c = 0;
    auto adv = [&](int x, int y) {
        c++;
        if (val[x] == gas && val[y] == gas) { if (x == cand) val[x] = solid++; else val[y] = solid++; }
        if (val[x] == gas) cand = x; else if (val[y] == gas) cand = y;
        return val[x] < val[y];
    };
    sort(a.data(), a.data() + n, adv);
    uint64_t online = c;
    std::vector<int64_t> k = val;
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        if (a[i] < 0 || (size_t) a[i] >= n || seen[a[i]]) { fail((std::string(alg) + ":permutation").c_str(), "adversarial input: position %zu of %zu lost or repeated", i, n); break; }
        seen[a[i]] = 1;
        if (i && k[a[i]] < k[a[i - 1]]) { fail((std::string(alg) + ":order").c_str(), "adversarial input: position %zu of %zu out of order", i, n); break; }
    }
    std::unique_ptr<Item<P>[]> b(new Item<P>[n]);
    for (size_t i = 0; i < n; i++) b[i] = {k[i], (int) i};
    ncmp<P>() = 0;
    sort(b.get(), b.get() + n, Less<P>{false});
    judge(alg, k, b.get(), false, false);
    double lim = cbound * (n + 1) * (std::log2((double) n + 2) + 1) + 64;
    if (cbound > 0 && (ncmp<P>() > lim || online > lim)) fail((std::string(alg) + ":comparisons").c_str(), "adversarial input: %lu comparisons for %zu elements", (unsigned long) std::max(online, ncmp<P>()), n);
    maxi("adversary.comparisons.per.nlogn.permille", (uint64_t) (1000.0 * std::max(online, ncmp<P>()) / (n * std::log2((double) n))));
    count("adversary.cases"); count("elements", n);
    evaluation(mix64(idx) ^ n ^ 99, true);
}
}

#if PART == 1
template<class T> T make(int64_t v, Rng &g);
template<class K, class Conv> static void radixKey(const char *ty, long idx, Rng &g, Conv &&conv, bool big = false) {
    size_t n = size(g, big); std::string pat; auto k = keys(n, g, pat);
    int how = (int) g.below(3);         // 0 radix_sort, 1 linear_sort, 2 radix over the second of the two buffers
    setCase("idx=%ld alg=radix_sort key=%s n=%zu pattern=%s form=%d", idx, ty, n, pat.c_str(), how);
    struct E { K key; uint32_t id; };
    std::unique_ptr<E[]> a(new E[n]), b(new E[n]);
    std::vector<E> in(n);
    for (size_t i = 0; i < n; i++) { a[i].key = conv(k[i]); a[i].id = (uint32_t) i; in[i] = a[i]; }
    auto ex = [](const E &e) -> K { return e.key; };
    bool second = how == 1 ? linear_sort(a.get(), a.get() + n, b.get(), ex) : radix_sort(a.get(), a.get() + n, b.get(), ex);
    const E *r = second ? b.get() : a.get();
    bool stable = how != 1;
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        if (r[i].id >= n || seen[r[i].id] || !(r[i].key == in[r[i].id].key)) { fail((std::string("radix:permutation:") + ty).c_str(), "position %zu of %zu", i, n); break; }
        seen[r[i].id] = 1;
        if (i && r[i].key < r[i - 1].key) { fail((std::string("radix:order:") + ty).c_str(), "position %zu of %zu out of order", i, n); break; }
        if (i && stable && r[i].key == r[i - 1].key && r[i - 1].id > r[i].id) { fail((std::string("radix:stability:") + ty).c_str(), "equal keys at %zu changed places", i); break; }
    }
    count("elements", n); count(second ? "result.in.second.buffer" : "result.in.first.buffer"); count("pattern." + pat);
    maxi("elements", n);
    evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
static void counting(long idx, Rng &g) {
    size_t n = size(g, false); std::string pat; auto k = keys(n, g, pat);
    setCase("idx=%ld alg=counting_sort n=%zu pattern=%s", idx, n, pat.c_str());
    struct E { uint8_t key; uint32_t id; };
    std::unique_ptr<E[]> a(new E[n]), b(new E[n]);
    for (size_t i = 0; i < n; i++) a[i] = {(uint8_t) k[i], (uint32_t) i};
    counting_sort(a.get(), a.get() + n, b.get(), [](const E &e) { return e.key; });
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        if (b[i].id >= n || seen[b[i].id] || b[i].key != (uint8_t) k[b[i].id]) { fail("counting:permutation", "position %zu of %zu", i, n); break; }
        seen[b[i].id] = 1;
        if (i && (b[i].key < b[i - 1].key || (b[i].key == b[i - 1].key && b[i - 1].id > b[i].id))) { fail("counting:order", "position %zu of %zu", i, n); break; }
    }
    std::string s, r; for (size_t i = 0; i < n; i++) s += (char) (k[i] & 0x7F);
    r.resize(n); counting_sort(s.begin(), s.end(), r.begin()); std::sort(s.begin(), s.end());
    if (r != s) fail("counting:string", "characters are not sorted");
    count("elements", 2 * n); evaluation(mix64(idx) ^ n, n > 2);
}
void sort_part_1(long idx, Rng &g) {
    bool big = g.chance(1, 40);
    auto wide = [&](int64_t v) { return (int64_t) ((uint64_t) v * (g.chance(1, 2) ? 1 : 0x9e3779b97f4a7c15ull)); };
    switch (idx % 17) {
        case 0: return radixKey<uint8_t>("u8", idx, g, [](int64_t v) { return (uint8_t) v; });
        case 1: return radixKey<int8_t>("i8", idx, g, [](int64_t v) { return (int8_t) v; });
        case 2: return radixKey<uint16_t>("u16", idx, g, [](int64_t v) { return (uint16_t) v; }, big);
        case 3: return radixKey<int16_t>("i16", idx, g, [](int64_t v) { return (int16_t) v; }, big);
        case 4: return radixKey<uint32_t>("u32", idx, g, [](int64_t v) { return (uint32_t) v; }, big);
        case 5: return radixKey<int32_t>("i32", idx, g, [](int64_t v) { return (int32_t) v; }, big);
        case 6: return radixKey<uint64_t>("u64", idx, g, [&](int64_t v) { return (uint64_t) wide(v); }, big);
        case 7: return radixKey<int64_t>("i64", idx, g, wide, big);
        case 8: return radixKey<float>("float", idx, g, [](int64_t v) { return (float) v * 0.37f; }, big);
        case 9: return radixKey<double>("double", idx, g, [](int64_t v) { return v * 1e3 / 7; }, big);
        case 10: return radixKey<bool>("bool", idx, g, [](int64_t v) { return (bool) (v & 1); });
        case 11: return radixKey<std::pair<uint8_t, bool>>("pair-u8-bool", idx, g, [](int64_t v) { return std::make_pair((uint8_t) (v >> 1), (bool) (v & 1)); });
        case 12: return radixKey<std::pair<uint32_t, uint32_t>>("pair-u32-u32", idx, g, [](int64_t v) { return std::make_pair((uint32_t) (v / 7), (uint32_t) (v * 2654435761u)); });
        case 13: return radixKey<std::tuple<uint8_t, int64_t, bool>>("tuple", idx, g, [](int64_t v) { return std::make_tuple((uint8_t) (v % 3), (int64_t) (v / 3), (bool) (v & 1)); });
        case 14: return radixKey<std::array<uint8_t, 3>>("array", idx, g, [](int64_t v) { return std::array<uint8_t, 3>{(uint8_t) (v >> 16), (uint8_t) (v >> 8), (uint8_t) v}; });
        case 15: return counting(idx, g);
        default: return radixKey<std::pair<int32_t, uint64_t>>("pair-i32-u64", idx, g, [](int64_t v) { return std::make_pair((int32_t) (v / 5), (uint64_t) v * 0x9e3779b97f4a7c15ull); });
    }
}
#elif PART == 2
void sort_part_2(long idx, Rng &g) {
    switch (idx % 8) {
        case 0: case 1: return sortItems<2>("pdqsort", idx, g, false, 3, [](auto b, auto e, auto c) { pdqsort(b, e, c); });
        case 2: return sortMoveOnly<2>("pdqsort", idx, g, false, [](auto b, auto e, auto c) { pdqsort(b, e, c); });
        case 3: return sortItems<2>("pdqsort_branchless", idx, g, false, 3, [](auto b, auto e, auto c) { pdqsort_branchless(b, e, c); });
        case 4: return sortPlain<int>("pdqsort", "int", idx, g, [](auto b, auto e) { pdqsort(b, e); });
        case 5: return sortPlain<double>("pdqsort", "double", idx, g, [](auto b, auto e) { pdqsort(b, e); });
        case 6: return sortPlain<int64_t>("pdqsort_branchless", "int64", idx, g, [](auto b, auto e) { pdqsort_branchless(b, e); });
        default: return killer<2>("pdqsort", idx, g, 3, [](auto b, auto e, auto c) { pdqsort(b, e, c); });
    }
}
#elif PART == 3 || PART == 4
template<class L> static void asList(const char *alg, long idx, Rng &g, L &&sort) {
    size_t n = size(g, false); std::string pat; auto k = keys(n, g, pat);
    bool rev = g.chance(1, 3);
    setCase("idx=%ld alg=%s list n=%zu pattern=%s reversed=%d", idx, alg, n, pat.c_str(), rev);
    std::list<Item<PART>> l; for (size_t i = 0; i < n; i++) l.push_back({k[i], (int) i});
    sort(l.begin(), l.end(), Less<PART>{rev});
    std::vector<Item<PART>> v(l.begin(), l.end());
    if (v.size() != n) fail((std::string(alg) + ":size").c_str(), "%zu elements became %zu", n, v.size()); else judge(alg, k, v.data(), rev, false);
    count("elements", n); count("list.cases"); evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
#if PART == 3
void sort_part_3
#else
void sort_part_4
#endif
(long idx, Rng &g) {
    const char *nm = PART == 3 ? "vergesort" : "vergesort-headers";
    switch (idx % 7) {
        case 0: case 1: return sortItems<PART>(nm, idx, g, false, 0, [](auto b, auto e, auto c) { vergesort::vergesort(b, e, c); });
        case 2: return sortMoveOnly<PART>(nm, idx, g, false, [](auto b, auto e, auto c) { vergesort::vergesort(b, e, c); });
        case 3: return sortPlain<int>(nm, "int", idx, g, [](auto b, auto e) { vergesort::vergesort(b, e); });
        case 4: return sortPlain<double>(nm, "double", idx, g, [](auto b, auto e) { vergesort::vergesort(b, e); });
        case 5: return asList(nm, idx, g, [](auto b, auto e, auto c) { vergesort::vergesort(b, e, c); });
        default: return killer<PART>(nm, idx, g, 0, [](auto b, auto e, auto c) { vergesort::vergesort(b, e, c); });
    }
}
#elif PART == 5
void sort_part_5(long idx, Rng &g) {
    switch (idx % 6) {
        case 0: case 1: return sortItems<5>("gfx-timsort", idx, g, true, 3, [](auto b, auto e, auto c) { gfx::timsort(b, e, c); });
        case 2: return sortMoveOnly<5>("gfx-timsort", idx, g, true, [](auto b, auto e, auto c) { gfx::timsort(b, e, c); });
        case 3: return sortPlain<int>("gfx-timsort", "int", idx, g, [](auto b, auto e) { gfx::timsort(b, e); });
        case 4: return sortPlain<double>("gfx-timsort", "double", idx, g, [](auto b, auto e) { gfx::timsort(b, e); });
        default: return killer<5>("gfx-timsort", idx, g, 3, [](auto b, auto e, auto c) { gfx::timsort(b, e, c); });
    }
}
#elif PART == 6
void sort_part_6(long idx, Rng &g) {
    switch (idx % 6) {
        case 0: case 1: return sortItems<6>("tim-timsort", idx, g, true, 3, [](auto b, auto e, auto c) { tim::timsort(b, e, c); });
        case 2: return sortMoveOnly<6>("tim-timsort", idx, g, true, [](auto b, auto e, auto c) { tim::timsort(b, e, c); });
        case 3: return sortPlain<int>("tim-timsort", "int", idx, g, [](auto b, auto e) { tim::timsort(b, e); });
        case 4: return sortPlain<double>("tim-timsort", "double", idx, g, [](auto b, auto e) { tim::timsort(b, e); });
        default: return killer<6>("tim-timsort", idx, g, 3, [](auto b, auto e, auto c) { tim::timsort(b, e, c); });
    }
}
#elif PART == 7
template<class IT, class NT> static void keyvalue(const char *ty, long idx, Rng &g) {
    size_t n = std::max<size_t>(1, size(g, false)); std::string pat; auto k = keys(n, g, pat);
    setCase("idx=%ld alg=cpu_sorting_key_value %s n=%zu pattern=%s", idx, ty, n, pat.c_str());
    std::unique_ptr<IT[]> key(new IT[n]); std::unique_ptr<NT[]> val(new NT[n]);
    std::vector<IT> in(n);
    for (size_t i = 0; i < n; i++) { in[i] = key[i] = (IT) k[i]; val[i] = (NT) i; }
    cpu_sorting_key_value<IT, NT>(key.get(), val.get(), (IT) n);
    std::vector<char> seen(n, 0);
    for (size_t i = 0; i < n; i++) {
        size_t id = (size_t) val[i];
        if (id >= n || seen[id] || in[id] != key[i]) { fail("keyvalue:pairing", "position %zu of %zu: key and value no longer belong together", i, n); break; }
        seen[id] = 1;
        if (i && key[i] < key[i - 1]) { fail("keyvalue:order", "position %zu of %zu", i, n); break; }
    }
    if (my_is_sorted(in.begin(), in.end(), std::less<IT>()) != std::is_sorted(in.begin(), in.end())) fail("keyvalue:is-sorted", "my_is_sorted misjudges the input");
    count("elements", n); count("pattern." + pat);
    evaluation(mix64(idx) ^ n, n > 2 && pat != "equal");
}
void sort_part_7(long idx, Rng &g) {
    switch (idx % 5) {
        case 0: return keyvalue<int32_t, double>("i32/double", idx, g);
        case 1: return keyvalue<uint32_t, uint32_t>("u32/u32", idx, g);
        case 2: return keyvalue<int64_t, double>("i64/double", idx, g);
        case 3: return keyvalue<uint64_t, int64_t>("u64/i64", idx, g);
        default: return keyvalue<int64_t, float>("i64/float", idx, g);
    }
}
#else
#define D(n) void sort_part_##n(long, Rng &) __attribute__((weak));
D(1) D(2) D(3) D(4) D(5) D(6) D(7)
int main(int argc, char **argv) {
    vh::init(argc, argv);
    void (*f[])(long, Rng &) = {sort_part_1, sort_part_2, sort_part_3, sort_part_4, sort_part_5, sort_part_6, sort_part_7};
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        if (auto p = f[idx % 7]) p(idx / 7, g);
        if (idx % 350 < 7) sample(currentCase());
    }
    return vh::finish();
}
#endif
