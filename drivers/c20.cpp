// C20: labelings by OpenCL kernels, executed by mockcl under random schedules
// of work-items, equal the ones of the CPU and of the reference.
#include "device.hpp"
#include <gpu_csp.hpp>

extern "C" void mockcl_reseed(unsigned long);
extern "C" void mockcl_stats(unsigned long*);

void drv::setup(drv::Ctx&) {}
void drv::teardown(drv::Ctx& c)
{
    unsigned long v[7];
    mockcl_stats(v);
    const char* n[] = {"launches-of-kernels", "work-items", "work-groups",
                       "switches-of-work-items", "accesses-to-buffers",
                       "barriers", "distinct-schedules"};
    for (int i = 0; i < 7; ++i) c.count(n[i], v[i]);
}

void drv::run_case(Ctx& c, Rng& r)
{
    device::compare(c, r, "OpenCL", mockcl_reseed,
                    sp::labeling::finder::find_labeling_cl);
}
