// VC-TU: src/ASM/GlbNorm.C src/LinAlg/MatVec.C
// VC-TIME: 250
// VC-PATHS: 30000
#include "vc.h"
#include "GlbNorm.h"
#include "ElmNorm.h"
#include "ASMenums.h"
#include "matrix.h"
#include <cmath>
#include <memory>

static double finalOp(double v, int op)
{
  switch (op) {
  case 1:
    if (v < 0.0) return -v;
    return v;
  case 2: return std::sqrt(v); // Only used with non-negative values
  default: return v;
  }
}

//! Any value, any non-negative value (for the square root), or values of
//! alternating sign (for the absolute value)
static double value(int op)
{
  static int count = 0;
  double v = vc_real("v");
  if (op == 2 || (op == 1 && ++count%2))
    vc_assume(v >= 0.0);
  else if (op == 1)
    vc_assume(v < 0.0);
  return v;
}

//! The final operation for values of either sign
CONTRACT(H_final_operation)
{
  Vectors glb(1,Vector(1));
  int op = vc_pick("operation",0,2);
  double v = glb[0][0] = vc_real("v");
  {
    GlbNorm norm(glb,op == 1 ? ASM::ABS : op == 2 ? ASM::SQRT : ASM::NONE);
  }
  double w = glb[0][0];
  if (op == 0)
    vc_eq(w,v,"no operation");
  else if (v >= 0.0) {
    vc_true(w >= 0.0,"not negative");
    vc_eq(op == 1 ? w : w*w,v,"value or square root");
  }
  else if (op == 1)
    vc_eq(w,-v,"absolute value");
  else {
    vc_true(w <= 0.0,"sign is kept");
    vc_eq(w*w,-v,"square root of the absolute value, with the sign");
  }
}

static ASM::FinalNormOp opType(int op)
{
  return op == 1 ? ASM::ABS : op == 2 ? ASM::SQRT : ASM::NONE;
}

//! Groups of global norms (some possibly empty) receive the element norms in order
CONTRACT(H_assembly)
{
  int ng = vc_pick("groups",1,3), nel = vc_pick("elements",1,2), op = vc_pick("operation",0,2);
  Vectors glb(ng);
  size_t total = 0;
  for (Vector& g : glb) {
    g.resize(vc_pick("size",0,2));
    for (double& v : g) v = value(op);
    total += g.size();
  }
  vc_assume(total > 0);
  size_t n = vc_pick("fewer",0,1) && total > 1 ? total-1 : total;
  std::vector<double> sum;
  for (const Vector& g : glb) sum.insert(sum.end(),g.begin(),g.end());
  std::vector< std::vector<double> > val(nel,std::vector<double>(n));
  {
    GlbNorm norm(glb,opType(op));
    vc_true(!norm.threadSafe(),"element norms are added at once");
    for (int e = 1; e <= nel; e++) {
      ElmNorm elm(n);
      for (size_t i = 0; i < n; i++) {
        elm[i] = val[e-1][i] = value(op);
        sum[i] += val[e-1][i];
      }
      vc_true(norm.assemble(&elm,e),"element norms added");
      size_t k = 0;
      for (const Vector& g : glb)
        for (double v : g) { vc_eq(v,sum[k],"global norms are sums of element norms"); k++; }
      for (size_t i = 0; i < n; i++)
        vc_eq(elm[i],finalOp(val[e-1][i],op),"final operation on the element norm");
    }
    LocalIntegral* none = nullptr;
    vc_true(!norm.assemble(none,1),"refused without element norms");
  }
  size_t k = 0;
  for (const Vector& g : glb)
    for (double v : g) { vc_eq(v,finalOp(sum[k],op),"final operation on the global norm, once"); k++; }
  if (nel > 1 && ng > 1) vc_cover("several elements and groups");
}

//! Element norms kept in external storage are added at the end, after any number of visits
CONTRACT(H_delayed_assembly)
{
  int nel = vc_pick("elements",1,3), op = vc_pick("operation",0,2), delay = vc_pick("delayed",0,1), visits = vc_pick("visits",1,2);
  size_t n = vc_pick("norms",1,3);
  Vectors glb(2);
  glb[0].resize(1);
  glb[1].resize(n-1);
  for (Vector& g : glb) for (double& v : g) v = value(op);
  std::vector<double> sum(glb[0]), g0;
  sum.insert(sum.end(),glb[1].begin(),glb[1].end());
  g0 = sum;
  Matrix E(n,nel), E0;
  {
    GlbNorm norm(glb,opType(op));
    if (delay) norm.delayAssembly();
    vc_eqi(norm.threadSafe(),delay,"elements may be treated in parallel if added at the end");
    std::vector< std::unique_ptr<ElmNorm> > elm;
    for (int e = 0; e < nel; e++) elm.emplace_back(new ElmNorm(E.ptr(e),n));
    for (int v = 0; v < visits; v++)
      for (int e = 0; e < nel; e++) {
        for (size_t i = 0; i < n; i++) (*elm[e])[i] += value(op);
        vc_eqi(norm.assemble(elm[e].get(),e+1),delay,"postponed");
      }
    E0 = E;
    vc_eq(glb[0][0],g0[0],"nothing is added yet");
    for (size_t i = 1; i < n; i++) vc_eq(glb[1][i-1],g0[i],"nothing is added yet");
    for (int e = 0; e < nel; e++) {
      vc_true(norm.assemble(elm[e].get()),"element norms added");
      for (size_t i = 0; i < n; i++) sum[i] += E0(i+1,e+1);
    }
  }
  vc_eq(glb[0][0],finalOp(sum[0],op),"final operation on the sum of element norms, once");
  for (size_t i = 1; i < n; i++)
    vc_eq(glb[1][i-1],finalOp(sum[i],op),"final operation on the sum of element norms, once");
  for (int e = 1; e <= nel; e++)
    for (size_t i = 1; i <= n; i++)
      vc_eq(E(i,e),finalOp(E0(i,e),op),"final operation on the element norm, once");
}
