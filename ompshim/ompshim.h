#pragma once
#include <cstdint>
extern "C" {
// mode 0: free running; 1: free running with seeded delays; 2: token passing, one thread at a time, seeded order
void shim_config(int mode, uint64_t seed);
void shim_stats(uint64_t *regions, uint64_t *events, uint64_t *distinct_orders, uint64_t *max_team);
uint64_t shim_last_order();     // hash of the synchronisation order of the regions since shim_config
}
