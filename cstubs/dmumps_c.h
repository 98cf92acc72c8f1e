/* Declarations of the parts of the MUMPS C interface that the shims use (the library is not installed here).
   Layout follows the MUMPS users' guide; only names and types matter for the analysis. */
#pragma once
#define MUMPS_VERSION "5.8.0"
#define MUMPS_VERSION_MAX_LEN 30
typedef struct { double r, i; } DMUMPS_COMPLEX_PAIR;
#define ZMUMPS_COMPLEX DMUMPS_COMPLEX_PAIR
typedef struct {
    int sym, par, job;
    int comm_fortran;
    int icntl[60];
    double cntl[15];
    int n;
    int nz;
    long long nnz;
    int *irn, *jcn;
    double *a;
    double *rhs;
    int info[80], infog[80];
    double rinfo[40], rinfog[40];
    char version_number[MUMPS_VERSION_MAX_LEN + 2];
} DMUMPS_STRUC_C;
void dmumps_c(DMUMPS_STRUC_C *mumps_par);
