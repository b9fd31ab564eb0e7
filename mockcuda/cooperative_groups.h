// Stand-in of cooperative groups: the groups of a whole grid and of a block.
#ifndef MOCK_COOPERATIVE_GROUPS_H
#define MOCK_COOPERATIVE_GROUPS_H
#include <cuda_runtime.h>

namespace cooperative_groups
{

struct grid_group
{
    void sync() const { mock_grid_sync(); }
    bool is_valid() const { return mock_is_cooperative(); }
    unsigned long long size() const
    {
        return (unsigned long long)gridDim.x * gridDim.y * gridDim.z
            * blockDim.x * blockDim.y * blockDim.z;
    }
    unsigned long long thread_rank() const
    {
        unsigned long long b = ((unsigned long long)blockIdx.z * gridDim.y
                                + blockIdx.y) * gridDim.x + blockIdx.x;
        return b * (blockDim.x * blockDim.y * blockDim.z)
            + (threadIdx.z * blockDim.y + threadIdx.y) * blockDim.x
            + threadIdx.x;
    }
};
struct thread_block
{
    void sync() const { __syncthreads(); }
    unsigned size() const { return blockDim.x * blockDim.y * blockDim.z; }
    unsigned thread_rank() const
    {
        return (threadIdx.z * blockDim.y + threadIdx.y) * blockDim.x
            + threadIdx.x;
    }
    dim3 group_index() const { return blockIdx; }
    dim3 thread_index() const { return threadIdx; }
};
inline grid_group this_grid() { return {}; }
inline thread_block this_thread_block() { return {}; }
template<class G> void sync(const G& g) { g.sync(); }

}

#endif
