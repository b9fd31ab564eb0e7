// What a stand-in of the OpenMP runtime tells the driver.
#ifndef VERIF_GOMP_STATS_HPP
#define VERIF_GOMP_STATS_HPP
#include <cstdint>
struct vf_gomp_stats_t
{
    uint64_t regions, threads, max_threads, accesses, switches, hash, yields;
};
extern "C"
{
// Both are missing when the real runtime is linked.
vf_gomp_stats_t* vf_gomp_stats() __attribute__((weak));
void vf_gomp_seed(uint64_t seed) __attribute__((weak));
void omp_set_num_threads(int);
void omp_set_dynamic(int);
}
#endif
