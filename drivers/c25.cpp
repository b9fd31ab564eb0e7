// C25: labelings by CUDA kernels, executed by mockcuda under random schedules
// of threads, equal the ones of the CPU and of the reference.
#include "device.hpp"

extern "C" void mockcuda_reseed(unsigned long);
extern "C" void mockcuda_stats(unsigned long*);
extern "C" unsigned long mockcuda_live();

void drv::setup(drv::Ctx&) {}
void drv::teardown(drv::Ctx& c)
{
    unsigned long v[7];
    mockcuda_stats(v);
    const char* n[] = {"launches-of-kernels", "threads", "blocks",
                       "switches-of-threads", "accesses-to-memory", "barriers",
                       "distinct-schedules"};
    for (int i = 0; i < 7; ++i) c.count(n[i], v[i]);
}

void drv::run_case(Ctx& c, Rng& r)
{
    device::compare(c, r, "CUDA", mockcuda_reseed,
                    sp::labeling::finder::find_labeling_cuda,
                    c.aux == "tall=1");
    if (mockcuda_live())
        return c.viol("device-memory", drv::cat(mockcuda_live(), " buffers of "
                                           "device memory are not freed"));
}
