// VC-TU: src/ASM/ElmMats.C src/ASM/BlockElmMats.C src/LinAlg/MatVec.C
// VC-TIME: 250
#include "vc.h"
#include "BlockElmMats.h"

struct Lay { int nb, nbas, bas[3], nc[3], nen[2], off[3], ndn[2], start[2], ndof; };

static Lay layout(int maxBlk)
{
  Lay l;
  l.nb = vc_pick("nblocks",1,maxBlk);
  l.nbas = l.nb > 1 ? vc_pick("nbasis",1,2) : 1;
  for (int i = 0; i < l.nb; i++) {
    l.bas[i] = l.nbas > 1 ? (i == 0 ? vc_pick("basis",0,1) : i == 1 ? 1-l.bas[0] : vc_pick("basis",0,1)) : 0;
    l.nc[i] = vc_pick("ncmp",1,2);
  }
  for (int j = 0; j < l.nbas; j++) l.nen[j] = vc_pick("nen",1,2);
  // dof numbering: bases one after the other, node by node, components of the blocks of the basis in block order
  l.ndof = 0;
  for (int j = 0; j < l.nbas; j++) {
    l.ndn[j] = 0;
    for (int i = 0; i < l.nb; i++)
      if (l.bas[i] == j) { l.off[i] = l.ndn[j]; l.ndn[j] += l.nc[i]; }
    l.start[j] = l.ndof;
    l.ndof += l.ndn[j]*l.nen[j];
  }
  return l;
}
static int gdof(const Lay& l, int blk, int node, int c) { return l.start[l.bas[blk]]+node*l.ndn[l.bas[blk]]+l.off[blk]+c+1; }
static int bsize(const Lay& l, int blk) { return l.nen[l.bas[blk]]*l.nc[blk]; }

static void blocks(int maxBlk)
{
  Lay l = layout(maxBlk);
  int n = l.nb;
  bool sym = n > 1 ? vc_pick("symmetric",0,1) : true;
  int nOff = sym ? n*(n-1)/2 : n*(n-1);
  BlockElmMats e(n,l.nbas);
  e.resize(1+n+nOff,1+n);
  bool ok = true;
  for (int i = 0; i < n; i++) ok &= e.redim(i+1,l.nen[l.bas[i]],l.nc[i],l.bas[i]+1);
  vc_true(ok,"dimensioning the diagonal blocks");
  int flag[6], k = 0;
  for (int i = 0; i < n; i++)
    for (int j = sym ? i+1 : 0; j < n; j++)
      if (i != j) {
        flag[k] = sym ? (k == 0 ? vc_pick("flag",-1,1) : 1-2*(k%2)) : 0;
        vc_true(e.redimOffDiag(1+n+k,flag[k]),"dimensioning the off-diagonal blocks");
        vc_eqi(e.A[1+n+k].rows(),bsize(l,i),"rows of an off-diagonal block");
        vc_eqi(e.A[1+n+k].cols(),bsize(l,j),"columns of an off-diagonal block");
        if (e.A[1+n+k].rows() != (size_t)bsize(l,i) || e.A[1+n+k].cols() != (size_t)bsize(l,j)) return;
        k++;
      }
  vc_true(!e.redimOffDiag(n,0) && !e.redimOffDiag(2+n+nOff,0),"other indices are no off-diagonal blocks");
  vc_true(e.finalize(),"block layout is consistent");
  for (size_t i = 1; i < e.A.size(); i++) vc_fill(e.A[i].ptr(),e.A[i].size(),"A");
  for (size_t i = 1; i < e.b.size(); i++) vc_fill(e.b[i].ptr(),e.b[i].size(),"b");
  const Matrix& N = e.getNewtonMatrix();
  const Vector& R = e.getRHSVector();
  vc_eqi(N.rows(),l.ndof,"number of rows of the element matrix");
  vc_eqi(N.cols(),l.ndof,"number of columns of the element matrix");
  vc_eqi(R.size(),l.ndof,"size of the element vector");
  if (N.rows() != (size_t)l.ndof || N.cols() != (size_t)l.ndof || R.size() != (size_t)l.ndof) return;
  for (int i = 0; i < n; i++)
    for (int in = 0; in < l.nen[l.bas[i]]; in++)
      for (int ic = 0; ic < l.nc[i]; ic++) {
        int r = in*l.nc[i]+ic+1;
        vc_eq(R(gdof(l,i,in,ic)),e.b[1+i](r),"block vector lands in its rows");
        for (int jn = 0; jn < l.nen[l.bas[i]]; jn++)
          for (int jc = 0; jc < l.nc[i]; jc++)
            vc_eq(N(gdof(l,i,in,ic),gdof(l,i,jn,jc)),e.A[1+i](r,jn*l.nc[i]+jc+1),"diagonal block lands in its rows and columns");
      }
  k = 0;
  for (int i = 0; i < n; i++)
    for (int j = sym ? i+1 : 0; j < n; j++)
      if (i != j) {
        for (int in = 0; in < l.nen[l.bas[i]]; in++)
          for (int ic = 0; ic < l.nc[i]; ic++)
            for (int jn = 0; jn < l.nen[l.bas[j]]; jn++)
              for (int jc = 0; jc < l.nc[j]; jc++) {
                double a = e.A[1+n+k](in*l.nc[i]+ic+1,jn*l.nc[j]+jc+1);
                vc_eq(N(gdof(l,i,in,ic),gdof(l,j,jn,jc)),a,"off-diagonal block lands in its rows and columns");
                if (sym)
                  vc_eq(N(gdof(l,j,jn,jc),gdof(l,i,in,ic)),flag[k]*a,"transposed block follows the symmetry flag");
              }
        k++;
      }
  vc_cover("blocks assembled");
}

CONTRACT(H_block_matrices) { blocks(2); }
CONTRACT(H_block_matrices_3)
{
  blocks(3);
}

CONTRACT(H_block_zero_diagonal)
{
  // a zero diagonal block (negative basis index) has no matrix, but keeps its place
  int c1 = vc_pick("ncmp",1,2), c2 = 1, nen1 = vc_pick("nen",1,2), nen2 = vc_pick("nen",1,2);
  BlockElmMats e(2,2);
  e.resize(4,3);
  vc_true(e.redim(1,nen1,c1,1) && e.redim(2,nen2,c2,-2),"dimensioning");
  vc_true(e.redimOffDiag(3,1),"off-diagonal");
  vc_true(e.finalize(),"consistent");
  vc_true(e.A[2].empty(),"no matrix for the zero block");
  for (size_t i = 1; i < 4; i++) if (!e.A[i].empty()) vc_fill(e.A[i].ptr(),e.A[i].size(),"A");
  const Matrix& N = e.getNewtonMatrix();
  int n1 = nen1*c1, n2 = nen2*c2;
  vc_eqi(N.rows(),n1+n2,"size");
  for (int i = 1; i <= n1; i++) {
    for (int j = 1; j <= n1; j++) vc_eq(N(i,j),e.A[1](i,j),"first block");
    for (int j = 1; j <= n2; j++) {
      vc_eq(N(i,n1+j),e.A[3](i,j),"coupling block");
      vc_eq(N(n1+j,i),e.A[3](i,j),"transposed coupling block");
    }
  }
  for (int i = 1; i <= n2; i++) for (int j = 1; j <= n2; j++) vc_eq(N(n1+i,n1+j),0.0,"zero block");
}
