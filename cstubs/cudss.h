/* Declarations of the parts of cuDSS that the shims use (not installed here). */
#pragma once
#include <stddef.h>
#include <stdint.h>
typedef enum { CUDSS_STATUS_SUCCESS = 0, CUDSS_STATUS_NOT_INITIALIZED = 1, CUDSS_STATUS_ALLOC_FAILED = 2, CUDSS_STATUS_INVALID_VALUE = 3, CUDSS_STATUS_NOT_SUPPORTED = 4, CUDSS_STATUS_EXECUTION_FAILED = 5, CUDSS_STATUS_INTERNAL_ERROR = 6 } cudssStatus_t;
typedef struct cudssContext *cudssHandle_t;
typedef struct cudssConfigObj *cudssConfig_t;
typedef struct cudssDataObj *cudssData_t;
typedef struct cudssMatrixObj *cudssMatrix_t;
typedef enum { CUDSS_R_32F = 0, CUDSS_R_64F = 1, CUDSS_C_64F = 5, CUDSS_R_32I = 10 } cudaDataType_t;
typedef enum { CUDSS_LAYOUT_COL_MAJOR = 0, CUDSS_LAYOUT_ROW_MAJOR = 1 } cudssLayout_t;
typedef enum { CUDSS_CONFIG_REORDERING_ALG, CUDSS_CONFIG_FACTORIZATION_ALG, CUDSS_CONFIG_SOLVE_ALG, CUDSS_CONFIG_USE_MATCHING, CUDSS_CONFIG_MATCHING_ALG, CUDSS_CONFIG_SOLVE_MODE, CUDSS_CONFIG_IR_N_STEPS, CUDSS_CONFIG_IR_TOL, CUDSS_CONFIG_PIVOT_TYPE, CUDSS_CONFIG_PIVOT_THRESHOLD, CUDSS_CONFIG_PIVOT_EPSILON, CUDSS_CONFIG_HYBRID_MODE, CUDSS_CONFIG_HYBRID_MEMORY_MODE, CUDSS_CONFIG_HYBRID_DEVICE_MEMORY_LIMIT } cudssConfigParam_t;
typedef enum { CUDSS_DATA_INFO, CUDSS_DATA_LU_NNZ, CUDSS_DATA_NPIVOTS } cudssDataParam_t;
typedef enum { CUDSS_MTYPE_GENERAL, CUDSS_MTYPE_SYMMETRIC, CUDSS_MTYPE_HERMITIAN, CUDSS_MTYPE_SPD, CUDSS_MTYPE_HPD } cudssMatrixType_t;
typedef enum { CUDSS_MVIEW_FULL, CUDSS_MVIEW_LOWER, CUDSS_MVIEW_UPPER } cudssMatrixViewType_t;
typedef enum { CUDSS_BASE_ZERO, CUDSS_BASE_ONE } cudssIndexBase_t;
typedef enum { CUDSS_ALG_DEFAULT, CUDSS_ALG_1, CUDSS_ALG_2, CUDSS_ALG_3, CUDSS_ALG_4, CUDSS_ALG_5 } cudssAlgType_t;
typedef cudssAlgType_t cudssReorderingAlg_t;
typedef cudssAlgType_t cudssMatchingAlg_t;
typedef enum { CUDSS_PIVOT_COL, CUDSS_PIVOT_ROW, CUDSS_PIVOT_NONE } cudssPivotType_t;
enum { CUDSS_PHASE_ANALYSIS = 1, CUDSS_PHASE_FACTORIZATION = 2, CUDSS_PHASE_SOLVE = 8 };
extern "C" {
cudssStatus_t cudssCreate(cudssHandle_t *h);
cudssStatus_t cudssDestroy(cudssHandle_t h);
cudssStatus_t cudssSetStream(cudssHandle_t h, cudaStream_t s);
cudssStatus_t cudssConfigCreate(cudssConfig_t *c);
cudssStatus_t cudssConfigDestroy(cudssConfig_t c);
cudssStatus_t cudssConfigSet(cudssConfig_t c, cudssConfigParam_t p, void *v, size_t n);
cudssStatus_t cudssConfigGet(cudssConfig_t c, cudssConfigParam_t p, void *v, size_t n, size_t *w);
cudssStatus_t cudssDataCreate(cudssHandle_t h, cudssData_t *d);
cudssStatus_t cudssDataDestroy(cudssHandle_t h, cudssData_t d);
cudssStatus_t cudssDataGet(cudssHandle_t h, cudssData_t d, cudssDataParam_t p, void *v, size_t n, size_t *w);
cudssStatus_t cudssMatrixCreateDn(cudssMatrix_t *m, int64_t nr, int64_t nc, int64_t ld, void *v, cudaDataType_t t, cudssLayout_t l);
cudssStatus_t cudssMatrixCreateCsr(cudssMatrix_t *m, int64_t nr, int64_t nc, int64_t nnz, void *rs, void *re, void *ci, void *v, cudaDataType_t it, cudaDataType_t ot, cudaDataType_t vt, cudssMatrixType_t mt, cudssMatrixViewType_t mv, cudssIndexBase_t b);
cudssStatus_t cudssMatrixSetValues(cudssMatrix_t m, void *v);
cudssStatus_t cudssMatrixDestroy(cudssMatrix_t m);
cudssStatus_t cudssExecute(cudssHandle_t h, int phase, cudssConfig_t c, cudssData_t d, cudssMatrix_t a, cudssMatrix_t x, cudssMatrix_t b);
}
