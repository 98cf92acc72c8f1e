/* Declarations of the parts of the CUDA runtime that the shims use (not installed here). */
#pragma once
#include <stddef.h>
typedef enum { cudaSuccess = 0, cudaErrorUnknown = 999 } cudaError_t;
typedef struct CUstream_st *cudaStream_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2 };
extern "C" {
cudaError_t cudaStreamCreate(cudaStream_t *s);
cudaError_t cudaStreamDestroy(cudaStream_t s);
cudaError_t cudaStreamSynchronize(cudaStream_t s);
cudaError_t cudaFree(void *p);
cudaError_t cudaMemcpy(void *dst, const void *src, size_t n, enum cudaMemcpyKind k);
cudaError_t cudaMemGetInfo(size_t *f, size_t *t);
cudaError_t cudaMallocVoid(void **p, size_t n);
}
template <class T> cudaError_t cudaMalloc(T **p, size_t n) { return cudaMallocVoid((void **)p, n); }
