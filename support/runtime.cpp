// Specifications of library functions that have no source in the repository, given as executable C++ and interpreted
// together with the code under contract (assumed contracts: libstdc++ containers' out-of-line parts, BLAS, LAPACK, libc).
#include <cstddef>
#include <cstdlib>
#include <cmath>
#include <bits/stl_tree.h>
#include <list>
#include <unordered_map>

namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw()
{ return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw()
{ return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
  _Rb_tree_node_base* y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
  else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root)
{
  _Rb_tree_node_base* y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y;
  else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
  else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw()
{
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; }
    else if (p == header._M_left) header._M_left = x;
  } else {
    p->_M_right = x;
    if (p == header._M_right) header._M_right = x;
  }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) {
      _Rb_tree_node_base* const y = g->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x,root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g,root);
      }
    } else {
      _Rb_tree_node_base* const y = g->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; }
      else {
        if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x,root); }
        x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g,root);
      }
    }
  }
  root->_M_color = _S_black;
}
// erase: unlinks z; balance is not maintained (it affects cost only)
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw()
{
  _Rb_tree_node_base*& root = header._M_parent;
  _Rb_tree_node_base*& leftmost = header._M_left;
  _Rb_tree_node_base*& rightmost = header._M_right;
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x = 0; _Rb_tree_node_base* xp = 0;
  if (!y->_M_left) x = y->_M_right;
  else if (!y->_M_right) x = y->_M_left;
  else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) {
    z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
    if (y != z->_M_right) {
      xp = y->_M_parent;
      if (x) x->_M_parent = y->_M_parent;
      y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y;
    } else xp = y;
    if (root == z) root = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    y->_M_parent = z->_M_parent;
    auto c = y->_M_color; y->_M_color = z->_M_color; z->_M_color = c;
    y = z;
  } else {
    xp = y->_M_parent;
    if (x) x->_M_parent = y->_M_parent;
    if (root == z) root = x;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
    else z->_M_parent->_M_right = x;
    if (leftmost == z) {
      if (!z->_M_right) leftmost = z->_M_parent;
      else { _Rb_tree_node_base* w = x; while (w->_M_left) w = w->_M_left; leftmost = w; }
    }
    if (rightmost == z) {
      if (!z->_M_left) rightmost = z->_M_parent;
      else { _Rb_tree_node_base* w = x; while (w->_M_right) w = w->_M_right; rightmost = w; }
    }
  }
  if (root) root->_M_color = _S_black;
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{ this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept
{ _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
  if (this != last) {
    last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
  }
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
  if (x._M_next != &x) {
    if (y._M_next != &y) {
      auto a = x._M_next; x._M_next = y._M_next; y._M_next = a;
      a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a;
      x._M_next->_M_prev = x._M_prev->_M_next = &x;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
    } else {
      y._M_next = x._M_next; y._M_prev = x._M_prev;
      y._M_next->_M_prev = y._M_prev->_M_next = &y;
      x._M_next = x._M_prev = &x;
    }
  } else if (y._M_next != &y) {
    x._M_next = y._M_next; x._M_prev = y._M_prev;
    x._M_next->_M_prev = x._M_prev->_M_next = &x;
    y._M_next = y._M_prev = &y;
  }
}
void _List_node_base::_M_reverse() noexcept
{
  _List_node_base* t = this;
  do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this);
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const
{
  std::size_t b = 13;
  while (b < n) b = 2*b+1;
  _M_next_resize = b;
  return b;
}
std::pair<bool,std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const
{
  if (ne + ni > _M_next_resize) {
    std::size_t m = ne+ni > 11 ? ne+ni : 11;
    if (m >= nb) return { true, _M_next_bkt(2*m) };
    _M_next_resize = nb;
  }
  return { false, 0 };
}
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
  const unsigned char* c = (const unsigned char*)p;
  size_t h = 5381;
  for (size_t i = 0; i < n; i++) h = (h*33 + c[i]) & 0xffffff;
  return h;
}
}

extern "C" {
// ---- BLAS, reference semantics
double cblas_ddot(int n, const double* x, int ix, const double* y, int iy)
{ double s = 0.0; for (int i = 0; i < n; i++) s += x[i*ix]*y[i*iy]; return s; }
void cblas_daxpy(int n, double a, const double* x, int ix, double* y, int iy)
{ for (int i = 0; i < n; i++) y[i*iy] += a*x[i*ix]; }
void cblas_dscal(int n, double a, double* x, int ix)
{ for (int i = 0; i < n; i++) x[i*ix] *= a; }
void cblas_dcopy(int n, const double* x, int ix, double* y, int iy)
{ for (int i = 0; i < n; i++) y[i*iy] = x[i*ix]; }
double cblas_dnrm2(int n, const double* x, int ix)
{ double s = 0.0; for (int i = 0; i < n; i++) s += x[i*ix]*x[i*ix]; return sqrt(s); }
double cblas_dasum(int n, const double* x, int ix)
{ double s = 0.0; for (int i = 0; i < n; i++) s += fabs(x[i*ix]); return s; }
size_t cblas_idamax(int n, const double* x, int ix)
{
  if (n < 1) return 0;
  size_t k = 0;
  double m = fabs(x[0]);
  for (int i = 1; i < n; i++) if (fabs(x[i*ix]) > m) { m = fabs(x[i*ix]); k = i; }
  return k;
}
enum { RowM = 101, ColM = 102, NoT = 111, Tr = 112 };
void cblas_dgemv(int order, int tA, int m, int n, double alpha, const double* A, int lda,
                 const double* x, int ix, double beta, double* y, int iy)
{
  // element (i,j) of A as stored
  int nr = tA == NoT ? m : n, nc = tA == NoT ? n : m;
  for (int i = 0; i < nr; i++) {
    double s = 0.0;
    for (int j = 0; j < nc; j++) {
      int r = tA == NoT ? i : j, c = tA == NoT ? j : i;
      s += A[order == ColM ? r+c*lda : r*lda+c]*x[j*ix];
    }
    if (beta == 0.0) y[i*iy] = alpha*s;
    else y[i*iy] = alpha*s + beta*y[i*iy];
  }
}
void cblas_dgemm(int order, int tA, int tB, int m, int n, int k, double alpha, const double* A, int lda,
                 const double* B, int ldb, double beta, double* C, int ldc)
{
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++) {
      double s = 0.0;
      for (int l = 0; l < k; l++) {
        int ar = tA == NoT ? i : l, ac = tA == NoT ? l : i;
        int br = tB == NoT ? l : j, bc = tB == NoT ? j : l;
        s += A[order == ColM ? ar+ac*lda : ar*lda+ac]*B[order == ColM ? br+bc*ldb : br*ldb+bc];
      }
      double* c = C + (order == ColM ? i+j*ldc : i*ldc+j);
      if (beta == 0.0) *c = alpha*s;
      else *c = alpha*s + beta*(*c);
    }
}
void cblas_dger(int order, int m, int n, double alpha, const double* x, int ix, const double* y, int iy, double* A, int lda)
{
  for (int i = 0; i < m; i++)
    for (int j = 0; j < n; j++)
      A[order == ColM ? i+j*lda : i*lda+j] += alpha*x[i*ix]*y[j*iy];
}
// ---- LAPACK, by specification: elimination with the first non-zero pivot (the result of a solve does not depend on it)
void dgetrf_(const int* M, const int* N, double* A, const int* lda, int* ip, int* info)
{
  int m = *M, n = *N, l = *lda;
  *info = 0;
  for (int k = 0; k < m && k < n; k++) {
    int p = k;
    while (p < m && A[p+k*l] == 0.0) p++;
    if (p == m) { ip[k] = k+1; if (!*info) *info = k+1; continue; }
    ip[k] = p+1;
    if (p != k) for (int j = 0; j < n; j++) { double t = A[k+j*l]; A[k+j*l] = A[p+j*l]; A[p+j*l] = t; }
    for (int i = k+1; i < m; i++) {
      double f = A[i+k*l]/A[k+k*l];
      A[i+k*l] = f;
      for (int j = k+1; j < n; j++) A[i+j*l] -= f*A[k+j*l];
    }
  }
}
void dgetrs_(const char* T, const int* N, const int* NR, const double* A, const int* lda, const int* ip, double* B, const int* ldb, int* info)
{
  int n = *N, l = *lda;
  *info = 0;
  for (int r = 0; r < *NR; r++) {
    double* b = B + r*(*ldb);
    for (int k = 0; k < n; k++) if (ip[k]-1 != k) { double t = b[k]; b[k] = b[ip[k]-1]; b[ip[k]-1] = t; }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) b[i] -= A[i+j*l]*b[j];
    for (int i = n-1; i >= 0; i--) {
      for (int j = i+1; j < n; j++) b[i] -= A[i+j*l]*b[j];
      b[i] /= A[i+i*l];
    }
  }
}
void dgesv_(const int* N, const int* NR, double* A, const int* lda, int* ip, double* B, const int* ldb, int* info)
{
  dgetrf_(N,N,A,lda,ip,info);
  if (*info == 0) dgetrs_("N",N,NR,A,lda,ip,B,ldb,info);
}
// ---- libc
char* strcpy(char* d, const char* s) { size_t i = 0; do d[i] = s[i]; while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n)
{ size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { size_t n = 0; while (d[n]) n++; size_t i = 0; do d[n+i] = s[i]; while (s[i++]); return d; }
char* strdup(const char* s) { size_t n = 0; while (s[n]) n++; char* d = (char*)malloc(n+1); for (size_t i = 0; i <= n; i++) d[i] = s[i]; return d; }
static bool isin(char c, const char* s) { for (; *s; s++) if (*s == c) return true; return false; }
char* strtok(char* s, const char* sep)
{
  static char* next = 0;
  if (!s) s = next;
  if (!s) return 0;
  while (*s && isin(*s,sep)) s++;
  if (!*s) { next = 0; return 0; }
  char* b = s;
  while (*s && !isin(*s,sep)) s++;
  if (*s) { *s = 0; next = s+1; } else next = 0;
  return b;
}
}
#undef strchr
extern "C" {
const char* vcs_strchr(const char* s, int c) asm("strchr");
const char* vcs_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return 0; } }
const char* vcs_strrchr(const char* s, int c) asm("strrchr");
const char* vcs_strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return r; } }
const char* vcs_strstr(const char* s, const char* t) asm("strstr");
const char* vcs_strstr(const char* s, const char* t)
{
  for (;; s++) {
    size_t i = 0;
    while (t[i] && s[i] == t[i]) i++;
    if (!t[i]) return s;
    if (!*s) return 0;
  }
}
const char* vcs_strpbrk(const char* s, const char* t) asm("strpbrk");
const char* vcs_strpbrk(const char* s, const char* t) { for (; *s; s++) if (isin(*s,t)) return s; return 0; }
}
