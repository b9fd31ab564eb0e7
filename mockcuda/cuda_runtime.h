// Stand-in of the CUDA runtime: see mockcuda.cpp.
//
// Sources are compiled twice, like nvcc does: for the host, and for the device
// with __CUDA_ARCH__ defined, as code of this processor in a library of its
// own. `kernel<<<...>>>(...)` is written as mock::launch(kernel, ...)(...) by
// the build.
#ifndef MOCK_CUDA_RUNTIME_H
#define MOCK_CUDA_RUNTIME_H

#include <math.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#define __device__
#define __host__
#define __global__
#define __constant__
#define __forceinline__ inline
#define __noinline__
#define __launch_bounds__(...)
#define __restrict__ __restrict

struct dim3
{
    unsigned x, y, z;
    constexpr dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1)
        : x(x), y(y), z(z)
    {
    }
};
struct uint3
{
    unsigned x, y, z;
};

enum cudaError
{
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorInvalidConfiguration = 9,
    cudaErrorInvalidDevicePointer = 17,
    cudaErrorInvalidMemcpyDirection = 21,
    cudaErrorInvalidDeviceFunction = 98,
    cudaErrorNoDevice = 100,
    cudaErrorIllegalAddress = 700,
    cudaErrorLaunchFailure = 719,
    cudaErrorCooperativeLaunchTooLarge = 720
};
typedef enum cudaError cudaError_t;
typedef struct CUstream_st* cudaStream_t;
typedef struct CUevent_st* cudaEvent_t;
enum cudaMemcpyKind
{
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};
enum cudaDeviceAttr
{
    cudaDevAttrMaxThreadsPerBlock = 1,
    cudaDevAttrMultiProcessorCount = 16,
    cudaDevAttrCooperativeLaunch = 95
};
struct cudaDeviceProp
{
    char name[256];
    size_t totalGlobalMem;
    int maxThreadsPerBlock, multiProcessorCount, warpSize;
    int maxThreadsDim[3], maxGridSize[3];
    int major, minor, cooperativeLaunch, maxThreadsPerMultiProcessor;
};

extern "C"
{
cudaError_t cudaMalloc(void** p, size_t n);
cudaError_t cudaFree(void* p);
cudaError_t cudaMemcpy(void* d, const void* s, size_t n, enum cudaMemcpyKind k);
cudaError_t cudaMemset(void* d, int v, size_t n);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
const char* cudaGetErrorString(cudaError_t e);
const char* cudaGetErrorName(cudaError_t e);
cudaError_t cudaGetDeviceProperties(struct cudaDeviceProp* p, int d);
cudaError_t cudaDeviceGetAttribute(int* v, enum cudaDeviceAttr a, int d);
cudaError_t mock_launch_kernel(const void* f, dim3 grid, dim3 block,
                               void** args, bool cooperative);
void mock_grid_sync();
bool mock_is_cooperative();
void mock_syncthreads();
void mock_access(const void* p, size_t n, bool write);
// Of the thread that runs now.
extern dim3 mock_threadIdx, mock_blockIdx, mock_blockDim, mock_gridDim;
}
#define threadIdx mock_threadIdx
#define blockIdx mock_blockIdx
#define blockDim mock_blockDim
#define gridDim mock_gridDim
#define warpSize 32

template<class T> inline cudaError_t cudaMalloc(T** p, size_t n)
{
    return cudaMalloc((void**)p, n);
}
inline cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n,
                                   cudaMemcpyKind k, cudaStream_t = nullptr)
{
    return cudaMemcpy(d, s, n, k);
}
inline cudaError_t cudaMemsetAsync(void* d, int v, size_t n,
                                   cudaStream_t = nullptr)
{
    return cudaMemset(d, v, n);
}
inline cudaError_t cudaMallocHost(void** p, size_t n)
{
    return (*p = malloc(n)) ? cudaSuccess : cudaErrorMemoryAllocation;
}
template<class T> inline cudaError_t cudaMallocHost(T** p, size_t n)
{
    return cudaMallocHost((void**)p, n);
}
inline cudaError_t cudaFreeHost(void* p)
{
    free(p);
    return cudaSuccess;
}
inline cudaError_t cudaThreadSynchronize() { return cudaDeviceSynchronize(); }
inline cudaError_t cudaStreamSynchronize(cudaStream_t)
{
    return cudaDeviceSynchronize();
}
inline cudaError_t cudaStreamCreate(cudaStream_t* s)
{
    *s = nullptr;
    return cudaSuccess;
}
inline cudaError_t cudaStreamDestroy(cudaStream_t) { return cudaSuccess; }
inline cudaError_t cudaEventCreate(cudaEvent_t* e)
{
    *e = nullptr;
    return cudaSuccess;
}
inline cudaError_t cudaEventRecord(cudaEvent_t, cudaStream_t = nullptr)
{
    return cudaSuccess;
}
inline cudaError_t cudaEventSynchronize(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaEventDestroy(cudaEvent_t) { return cudaSuccess; }
inline cudaError_t cudaSetDevice(int) { return cudaSuccess; }
inline cudaError_t cudaGetDevice(int* d)
{
    *d = 0;
    return cudaSuccess;
}
inline cudaError_t cudaGetDeviceCount(int* n)
{
    *n = 1;
    return cudaSuccess;
}
inline cudaError_t cudaLaunchKernel(const void* f, dim3 g, dim3 b, void** a,
                                    size_t = 0, cudaStream_t = nullptr)
{
    return mock_launch_kernel(f, g, b, a, false);
}
template<class T>
inline cudaError_t cudaLaunchKernel(const T* f, dim3 g, dim3 b, void** a,
                                    size_t = 0, cudaStream_t = nullptr)
{
    return mock_launch_kernel((const void*)f, g, b, a, false);
}
inline cudaError_t cudaLaunchCooperativeKernel(const void* f, dim3 g, dim3 b,
                                               void** a, size_t = 0,
                                               cudaStream_t = nullptr)
{
    return mock_launch_kernel(f, g, b, a, true);
}
template<class T>
inline cudaError_t cudaLaunchCooperativeKernel(T* f, dim3 g, dim3 b, void** a,
                                               size_t = 0,
                                               cudaStream_t = nullptr)
{
    return mock_launch_kernel((const void*)f, g, b, a, true);
}

inline void __syncthreads() { mock_syncthreads(); }
inline void __threadfence() {}
inline void __threadfence_block() {}
inline void __threadfence_system() {}
#define MOCK_ATOMIC(NAME, EXPR) \
    template<class T, class U> inline T NAME(T* p, U w) \
    { \
        mock_access(p, sizeof *p, false); \
        mock_access(p, sizeof *p, true); \
        T v = (T)w, old = *p; \
        *p = EXPR; \
        (void)v; \
        return old; \
    }
MOCK_ATOMIC(atomicAdd, old + v)
MOCK_ATOMIC(atomicSub, old - v)
MOCK_ATOMIC(atomicExch, v)
MOCK_ATOMIC(atomicMax, old < v ? v : old)
MOCK_ATOMIC(atomicMin, v < old ? v : old)
MOCK_ATOMIC(atomicAnd, old & v)
MOCK_ATOMIC(atomicOr, old | v)
MOCK_ATOMIC(atomicXor, old ^ v)
template<class T, class U, class V> inline T atomicCAS(T* p, U c, V v)
{
    mock_access(p, sizeof *p, false);
    mock_access(p, sizeof *p, true);
    T old = *p;
    if (old == (T)c) *p = (T)v;
    return old;
}
#if defined(__CUDA_ARCH__)
template<class T> inline T min(T a, T b) { return b < a ? b : a; }
template<class T> inline T max(T a, T b) { return a < b ? b : a; }
#define __uint2float_rn(x) ((float)(x))
#define __int2float_rn(x) ((float)(x))
#endif

// How kernels are called, host side.
#include <tuple>
#include <utility>
namespace mock
{

template<class... A> struct Launcher
{
    void (*f)(A...);
    dim3 grid, block;
    void operator()(A... a) const
    {
        void* args[] = {(void*)&a..., nullptr};
        mock_launch_kernel((const void*)f, grid, block, args, false);
    }
};
template<class... A>
Launcher<A...> launch(void (*f)(A...), dim3 grid, dim3 block, size_t = 0,
                      cudaStream_t = nullptr)
{
    return Launcher<A...>{f, grid, block};
}

}

#endif
