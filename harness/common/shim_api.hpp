// Schedule control when linked with ompshim (-DOMPSHIM); no-ops otherwise.
#pragma once
#include "vh.hpp"
#ifdef OMPSHIM
#include "ompshim/ompshim.h"
#endif
namespace vh {
inline void shimConfigure() {}
// every case gets its own schedule
inline void shimCase(uint64_t idx) {
#ifdef OMPSHIM
    static const int sm = (int) opt().num("shim", 0);
    shim_config(sm == 3 ? (mix64(idx) & 1 ? 2 : 1) : sm, mix64(opt().seed * 1315423911u + idx));
#else
    (void) idx;
#endif
}
inline void shimEvidence() {
#ifdef OMPSHIM
    uint64_t r, e, d, m;
    shim_stats(&r, &e, &d, &m);
    count("parallel_regions", r); count("sync_events", e); count("distinct_sync_orders", d); maxi("team_size", m);
#endif
}
} // namespace vh
