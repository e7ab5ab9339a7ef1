// Aligned allocation and the split of a scratch buffer into a dirty and a clean part.
// Built once per PART (1 aligned allocation, 2 splitting, 0 main).
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <numeric>
#include "spgemm-blocks/util.h"
#include "common/mat.hpp"
#include <array>
#include <map>
#include <omp.h>
using namespace vh;

#if PART == 1
void mem_part_1(long idx, Rng &g) {
    size_t rounds = 1 + g.below(40);
    bool team = idx % 4 == 0;
    setCase("idx=%ld alg=aligned-allocation rounds=%zu team=%d", idx, rounds, team);
    uint64_t total = 0; std::map<size_t, int> bad; size_t shrink = 0;
    auto round = [&](uint64_t s, uint64_t &bytes, int &err) {
        Rng h(s);
        std::vector<std::array<size_t, 3>> live; std::vector<std::byte *> ptr;       // size, alignment, pattern
        for (int k = 0; k < 12; k++) {
            size_t size = h.chance(1, 8) ? h.below(3) : h.below(h.chance(1, 4) ? 20000 : 200), al = h.chance(1, 2) ? 1 + h.below(130) : (size_t) 1 << h.below(13);
            std::byte *p = mallocAligned(size, al);
            if ((uintptr_t) p % al) err |= 1;
            if (!isAligned(p, al)) err |= 2;
            memset(p, (int) (k * 17 + 3), size);
            live.push_back({size, al, (size_t) (k * 17 + 3) & 0xFF}); ptr.push_back(p); bytes += size;
            if (h.chance(1, 3)) { size_t v = h.below(ptr.size()); for (size_t b = 0; b < live[v][0]; b++) if ((size_t) ptr[v][b] != live[v][2]) { err |= 4; break; } freeAligned(ptr[v]); ptr.erase(ptr.begin() + v); live.erase(live.begin() + v); }
        }
        for (size_t v = 0; v < ptr.size(); v++) { for (size_t b = 0; b < live[v][0]; b++) if ((size_t) ptr[v][b] != live[v][2]) { err |= 4; break; } freeAligned(ptr[v]); }
    };
    int err = 0;
    if (team) {
#pragma omp parallel num_threads(4) reduction(+: total) reduction(|: err)
        for (size_t r = 0; r < rounds; r++) { uint64_t b = 0; int e = 0; round(mix64(idx * 1000 + r) ^ omp_get_thread_num(), b, e); total += b; err |= e; }
    } else for (size_t r = 0; r < rounds; r++) round(mix64(opt().seed * 77 + idx * 1000 + r), total, err);
    if (err & 1) fail("aligned:alignment", "a block is not aligned as requested");
    if (err & 2) fail("aligned:predicate", "isAligned denies an aligned block");
    if (err & 4) fail("aligned:content", "a live block was overwritten");
    // typed allocation, predicate and rounding
    uint64_t *q = mallocAligned<uint64_t>(5, 64); for (int i = 0; i < 5; i++) q[i] = i;
    if (!isAligned(q) || !isAligned(q, 64)) fail("aligned:typed", "typed block misaligned");
    freeAligned(q);
    for (int k = 0; k < 50; k++) {
        size_t x = g.below(g.chance(1, 2) ? 100 : 1ull << 40);
        size_t up = roundUp<24>(x), down = roundDown<24>(x);
        if (up % 24 || down % 24 || up < x || up - x >= 24 || down > x || x - down >= 24) { fail("aligned:rounding", "rounding %zu gives %zu and %zu", x, down, up); break; }
        char *c = (char *) 4096 + x % 100; size_t al = 1 + g.below(64);
        if (isAligned(c, al) != ((uintptr_t) c % al == 0)) { fail("aligned:predicate", "isAligned(%p, %zu) is wrong", (void *) c, al); break; }
    }
    (void) shrink;
    count("bytes", total); count("blocks", rounds * 12);
    evaluation(mix64(idx) ^ rounds, rounds > 2);
}
#elif PART == 2
template<size_t N, size_t A> struct alignas(A) Obj { uint8_t b[N]; };
template<class D, class C> static void one(const char *ty, long idx, Rng &g) {
    // the accumulators' sizing: room for both kinds, alignment of both
    size_t al = std::lcm(sizeof(D), sizeof(C));
    size_t dn = g.below(g.chance(1, 3) ? 3 : 200), cn = g.below(g.chance(1, 3) ? 3 : 200);
    size_t slack = g.chance(1, 3) ? 0 : g.below(g.chance(1, 2) ? 40 : 2000);
    size_t size = roundUp<sizeof(C)>(dn * sizeof(D)) + cn * sizeof(C) + slack;
    bool only = g.chance(1, 3);                                  // getCleanMemory
    if (only) dn = 0;
    setCase("idx=%ld alg=split-memory types=%s dirty=%zu clean=%zu size=%zu clean-only=%d", idx, ty, dn, cn, size, only);
    std::byte *raw = (std::byte *) malloc(size + 2 * al + 64);
    std::byte *buf = (std::byte *) (((uintptr_t) raw + 32 + al - 1) / al * al);
    memset(raw, 0x33, size + 2 * al + 64);
    size_t dirty = g.chance(1, 4) ? size : g.chance(1, 4) ? 0 : g.below(size + 1);
    for (size_t i = 0; i < size; i++) buf[i] = (std::byte) (i < dirty ? 1 + g.below(250) : 0xFF);
    size_t rounds = 1 + g.below(4), cleaned = 0;
    for (size_t r = 0; r < rounds; r++) {
        std::vector<std::byte> before(buf, buf + size);
        D *dp = nullptr; C *cp = nullptr; size_t bound = dirty;
        if (only) getCleanMemory(buf, size, bound, cp, cn); else splitMemory(buf, size, bound, dp, dn, cp, cn);
        std::byte *cb = (std::byte *) cp, *ce = cb + cn * sizeof(C), *db = only ? buf : (std::byte *) dp, *de = db + (only ? 0 : dn * sizeof(D));
        if (db < buf || de > buf + size || cb < buf || ce > buf + size) { fail("split:outside", "round %zu: a part lies outside the buffer", r); break; }
        if (dn && cn && !(de <= cb || ce <= db)) { fail("split:overlap", "round %zu: the parts overlap", r); break; }
        if ((dn && (uintptr_t) db % sizeof(D)) || (cn && (uintptr_t) cb % sizeof(C))) { fail("split:alignment", "round %zu: a part is misaligned", r); break; }
        for (std::byte *p = cb; p < ce; p++) if (*p != (std::byte) 0xFF) { fail("split:not-clean", "round %zu: byte %td of the clean part is %02x", r, p - cb, (unsigned) *p); goto out; }
        if (bound > dirty) { fail("split:bound", "round %zu: the dirty bound grew from %zu to %zu", r, dirty, bound); break; }
        for (size_t i = bound; i < size; i++) if (buf[i] != (std::byte) 0xFF) { fail("split:bound", "round %zu: byte %zu beyond the dirty bound %zu is not clean", r, i, bound); goto out; }
        for (size_t i = 0; i < bound; i++) if (buf[i] != before[i]) { fail("split:touched", "round %zu: byte %zu below the dirty bound %zu was overwritten", r, i, bound); goto out; }
        if (ce > buf + 0 && cn && cb < buf + bound && ce > buf + bound) { fail("split:bound", "round %zu: the clean part straddles the dirty bound", r); break; }
        cleaned += dirty - bound;
        dirty = bound;
        // the owner works: dirties its dirty part, uses and restores the clean part
        if (dn) { memset(db, 0x77, dn * sizeof(D)); dirty = std::max<size_t>(dirty, de - buf); }
        memset(cb, 0x11, ce - cb); memset(cb, 0xFF, ce - cb);
    }
out:
    for (std::byte *p = raw; p < buf; p++) if (*p != (std::byte) 0x33) { fail("split:outside", "memory before the buffer changed"); break; }
    for (std::byte *p = buf + size; p < raw + size + 2 * al + 64; p++) if (*p != (std::byte) 0x33) { fail("split:outside", "memory after the buffer changed"); break; }
    free(raw);
    count("splits", rounds); count("bytes.cleaned", cleaned); if (cleaned) count("cases.cleaned");
    evaluation(mix64(idx) ^ size * 31 ^ dirty, cn > 0 && size > 8);
}
void mem_part_2(long idx, Rng &g) {
    switch (idx % 9) {
        case 0: one<uint8_t, uint8_t>("1/1", idx, g); break;
        case 1: one<uint64_t, uint8_t>("8/1", idx, g); break;
        case 2: one<uint8_t, uint64_t>("1/8", idx, g); break;
        case 3: one<double, Obj<24, 8>>("8/24", idx, g); break;
        case 4: one<Obj<3, 1>, uint32_t>("3/4", idx, g); break;
        case 5: one<Obj<12, 4>, Obj<16, 8>>("12/16", idx, g); break;
        case 6: one<uint32_t, Obj<12, 4>>("4/12", idx, g); break;
        case 7: one<Obj<40, 8>, uint16_t>("40/2", idx, g); break;
        default: one<uint16_t, Obj<5, 1>>("2/5", idx, g); break;
    }
}
#else
void mem_part_1(long, Rng &) __attribute__((weak));
void mem_part_2(long, Rng &) __attribute__((weak));
int main(int argc, char **argv) {
    vh::init(argc, argv);
    for (long idx = opt().from; idx < opt().cases; idx++) {
        if (!opt().selected(idx)) continue;
        Rng g(mix64(opt().seed * 2654435761u + idx));
        auto f = idx % 3 == 0 ? mem_part_1 : mem_part_2;
        if (f) f(idx / 3 * 2 + (idx % 3 > 1), g);
        if (idx % 150 < 3) sample(currentCase());
    }
    return vh::finish();
}
#endif
