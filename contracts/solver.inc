// Assumed contracts of the SuperLU and UMFPACK libraries: they solve the system of a matrix in compressed column storage. A factorization
// keeps the values the matrix had when it was made.
#include "slu_ddefs.h"
#include <umfpack.h>
#include <cstdlib>

struct Factors
{
  int n;
  double a[9], rcond;
};

static int nFactorizations = 0, nSymbolic = 0, rcState = 0;

//! Takes a copy of the values; false if singular
static bool factorize(Factors& F, int n, int nnz, const double* a, const int* rowind, const int* colptr)
{
  vc_true(n > 0 && n < 4,"size of the system to factorize");
  F.n = n;
  for (int i = 0; i < 9; i++) F.a[i] = 0.0;
  vc_eqi(colptr[0],0,"column pointers start at zero");
  vc_eqi(colptr[n],nnz,"column pointers end at the number of entries");
  for (int j = 0; j < n; j++) {
    vc_true(colptr[j] <= colptr[j+1],"column pointers increase");
    for (int k = colptr[j]; k < colptr[j+1]; k++) {
      vc_true(rowind[k] >= 0 && rowind[k] < n,"row index within the matrix");
      if (rowind[k] < 0 || rowind[k] >= n) vc_stop();
      for (int l = colptr[j]; l < k; l++) vc_true(rowind[k] != rowind[l],"no entry is stored twice");
      F.a[rowind[k]+n*j] = a[k];
    }
  }
  ++nFactorizations;
  return true;
}

static double det(const double* a, int n)
{
  if (n == 1) return a[0];
  if (n == 2) return a[0]*a[3] - a[1]*a[2];
  return a[0]*(a[4]*a[8]-a[5]*a[7]) - a[3]*(a[1]*a[8]-a[2]*a[7]) + a[6]*(a[1]*a[5]-a[2]*a[4]);
}

//! Cramer's rule
static void cramer(const Factors& F, const double* b, double* x)
{
  double d = det(F.a,F.n), y[3];
  for (int k = 0; k < F.n; k++) {
    double c[9];
    for (int i = 0; i < F.n*F.n; i++) c[i] = F.a[i];
    for (int i = 0; i < F.n; i++) c[i+F.n*k] = b[i];
    y[k] = det(c,F.n)/d;
  }
  for (int k = 0; k < F.n; k++) x[k] = y[k];
}

extern "C" {

void set_default_options(superlu_options_t* o) { o->Fact = DOFACT; o->Equil = YES; o->Trans = NOTRANS; o->ConditionNumber = NO; o->PivotGrowth = NO; }
void StatInit(SuperLUStat_t*) {}
void StatFree(SuperLUStat_t*) {}
void StatPrint(SuperLUStat_t*) {}

void dCreate_CompCol_Matrix(SuperMatrix* A, int m, int n, int_t nnz, double* v, int_t* r, int_t* c, Stype_t st, Dtype_t dt, Mtype_t mt)
{
  A->Stype = st; A->Dtype = dt; A->Mtype = mt; A->nrow = m; A->ncol = n;
  NCformat* s = (NCformat*)malloc(sizeof(NCformat));
  s->nnz = nnz; s->nzval = v; s->rowind = r; s->colptr = c;
  A->Store = s;
}

void dCreate_Dense_Matrix(SuperMatrix* X, int m, int n, double* x, int ld, Stype_t st, Dtype_t dt, Mtype_t mt)
{
  X->Stype = st; X->Dtype = dt; X->Mtype = mt; X->nrow = m; X->ncol = n;
  DNformat* s = (DNformat*)malloc(sizeof(DNformat));
  s->lda = ld; s->nzval = x;
  X->Store = s;
}

void Destroy_SuperMatrix_Store(SuperMatrix* A) { if (A->Store) free(A->Store); A->Store = nullptr; }
void Destroy_SuperNode_Matrix(SuperMatrix* A)  { if (A->Store) free(A->Store); A->Store = nullptr; }
void Destroy_CompCol_Matrix(SuperMatrix* A)    { if (A->Store) free(A->Store); A->Store = nullptr; }

static void sluSolve(superlu_options_t* o, SuperMatrix* A, int* perm_c, int* perm_r, SuperMatrix* L, SuperMatrix* U,
                     SuperMatrix* B, SuperMatrix* X, double* rcond, int_t* info)
{
  int n = A->ncol;
  vc_eqi(A->nrow,n,"square system");
  Factors* F = (Factors*)L->Store;
  if (o->Fact != FACTORED) {
    NCformat* s = (NCformat*)A->Store;
    F = (Factors*)malloc(sizeof(Factors));
    factorize(*F,n,s->nnz,(double*)s->nzval,s->rowind,s->colptr);
    L->Store = F;
    U->Store = malloc(8);
    for (int i = 0; i < n; i++) perm_c[i] = perm_r[i] = i;
  }
  vc_true(F && F->n == n,"a factorization of this size exists");
  if (!F || F->n != n) vc_stop();
  *info = 0;
  if (det(F->a,n) == 0.0) { *info = n; return; }
  DNformat* b = (DNformat*)B->Store;
  DNformat* x = (DNformat*)X->Store;
  for (int r = 0; r < B->ncol; r++) cramer(*F,(double*)b->nzval + r*b->lda,(double*)x->nzval + r*x->lda);
  if (rcond) *rcond = rcState == 2 ? 1.0e-20 : 0.25;
  if (rcond && rcState == 2) *info = n+1;
}

void dgssv(superlu_options_t* o, SuperMatrix* A, int* perm_c, int* perm_r, SuperMatrix* L, SuperMatrix* U,
           SuperMatrix* B, SuperLUStat_t*, int_t* info)
{
  sluSolve(o,A,perm_c,perm_r,L,U,B,B,nullptr,info);
}

void dgssvx(superlu_options_t* o, SuperMatrix* A, int* perm_c, int* perm_r, int* etree, char* equed, double* R, double* C,
            SuperMatrix* L, SuperMatrix* U, void*, int_t lwork, SuperMatrix* B, SuperMatrix* X, double* rpg, double* rcond,
            double* ferr, double* berr, GlobalLU_t*, mem_usage_t*, SuperLUStat_t*, int_t* info)
{
  vc_eqi(lwork,0,"memory is allocated by the library");
  for (int i = 0; i < A->ncol; i++) { etree[i] = i; R[i] = C[i] = 1.0; }
  for (int i = 0; i < B->ncol; i++) ferr[i] = berr[i] = 0.0;
  *equed = 'N';
  *rpg = 1.0;
  double rc = 0.0;
  sluSolve(o,A,perm_c,perm_r,L,U,B,X,&rc,info);
  if (o->ConditionNumber == YES && o->Fact != FACTORED) *rcond = rc;
}

int umfpack_di_symbolic(int32_t m, int32_t n, const int32_t*, const int32_t*, const double*, void** S, const double*, double* info)
{
  vc_eqi(m,n,"square system");
  int* s = (int*)malloc(sizeof(int));
  *s = n;
  *S = s;
  ++nSymbolic;
  info[UMFPACK_STATUS] = UMFPACK_OK;
  return UMFPACK_OK;
}

int umfpack_di_numeric(const int32_t* Ap, const int32_t* Ai, const double* Ax, void* S, void** N, const double*, double* info)
{
  int n = *(int*)S;
  Factors* F = (Factors*)malloc(sizeof(Factors));
  factorize(*F,n,Ap[n],Ax,Ai,Ap);
  *N = F;
  info[UMFPACK_RCOND] = 0.25;
  info[UMFPACK_STATUS] = det(F->a,n) == 0.0 ? UMFPACK_WARNING_singular_matrix : UMFPACK_OK;
  return (int)info[UMFPACK_STATUS];
}

int umfpack_di_solve(int sys, const int32_t*, const int32_t*, const double*, double* X, const double* B, void* N, const double*, double* info)
{
  vc_eqi(sys,UMFPACK_A,"the system itself is solved");
  cramer(*(Factors*)N,B,X);
  info[UMFPACK_STATUS] = UMFPACK_OK;
  return UMFPACK_OK;
}

void umfpack_di_free_symbolic(void** S) { free(*S); *S = nullptr; }
void umfpack_di_free_numeric(void** N) { free(*N); *N = nullptr; }

// LAPACK's Cholesky solver reads the upper triangle only
void dpotrs_(const char* uplo, const int* N, const int* NR, const double* A, const int* lda, double* B, const int* ldb, int* info)
{
  vc_true(*uplo == 'U',"upper triangle");
  Factors F;
  F.n = *N;
  for (int j = 0; j < F.n; j++) for (int i = 0; i < F.n; i++) F.a[i+F.n*j] = i < j ? A[i+j**lda] : A[j+i**lda];
  for (int r = 0; r < *NR; r++) cramer(F,B+r**ldb,B+r**ldb);
  *info = 0;
}

void dposv_(const char* uplo, const int* N, const int* NR, double* A, const int* lda, double* B, const int* ldb, int* info)
{
  vc_true(*uplo == 'U',"upper triangle");
  Factors F;
  F.n = *N;
  for (int j = 0; j < F.n; j++) for (int i = 0; i < F.n; i++) F.a[i+F.n*j] = i < j ? A[i+j**lda] : A[j+i**lda];
  ++nFactorizations;
  if (det(F.a,F.n) == 0.0) { *info = F.n; return; }
  dpotrs_(uplo,N,NR,A,lda,B,ldb,info);
}

double dlange_(const char*, const int* M, const int* N, const double* A, const int* lda, double*)
{
  double mx = 0.0;
  for (int j = 0; j < *N; j++) {
    double s = 0.0;
    for (int i = 0; i < *M; i++) s += A[i+j**lda] < 0.0 ? -A[i+j**lda] : A[i+j**lda];
    if (s > mx) mx = s;
  }
  return mx;
}

void dgecon_(const char*, const int* N, const double*, const int*, const double*, double* rcond, double* work, int* iwork, int* info)
{
  for (int i = 0; i < 4**N; i++) work[i] = 0.0;
  for (int i = 0; i < *N; i++) iwork[i] = 0;
  *rcond = 0.25;
  *info = 0;
}

}
