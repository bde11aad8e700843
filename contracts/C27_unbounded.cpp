// Vectors of any length: every loop over the entries is decided by induction.
// VC-TU: src/SIM/SIMsolution.C src/LinAlg/MatVec.C
// VC-TIME: 250
#include "vc.h"
#include "SIMsolution.h"

struct Sol : public SIMsolution
{
  void init(size_t ndof, size_t nsol) { this->initSolution(ndof,nsol); }
  void push(unsigned short int n) { this->pushSolution(n); }
  void push() { this->pushSolution(); }
};

CONTRACT(P_shift)
{
  Sol s;
  int nv = vc_pick("vectors",1,3), ns = vc_pick("states",0,4), rest = nv > 1 ? vc_pick("rest",0,nv-1) : 0;
  size_t len[3];
  len[0] = vc_size("length1",1,3); len[1] = nv > 1 ? vc_size("length2",1,2) : 1; len[2] = nv > 2 ? vc_size("length3",1,2) : 1;
  Vectors& sol = s.theSolutions();
  sol.resize(ns*nv+rest);
  for (size_t i = 0; i < sol.size(); i++) {
    sol[i].resize(len[i%nv]);
    vc_fill(sol[i].ptr(),len[i%nv],"u");
  }
  Vectors old(sol);
  if (nv == 1 && vc_pick("default",0,1))
    s.push();
  else
    s.push(nv);
  vc_eqi(s.getSolutions().size(),old.size(),"number of vectors is kept");
  if (s.getSolutions().size() != old.size()) return;
  for (int n = 0; n < ns; n++)
    for (int i = 0; i < nv; i++) {
      const Vector& now = s.getSolution(n*nv+i);
      const Vector& want = old[n > 0 ? (n-1)*nv+i : i];
      vc_eqi(now.size(),len[i],"length of the vector");
      size_t k = vc_index("k",len[i]);
      if (n == 0) vc_eq(now[k],want[k],"the newest state is kept as start value");
      else        vc_eq(now[k],want[k],"each state moves one step back");
    }
  for (size_t i = ns*nv; i < old.size(); i++) {
    size_t k = vc_index("k",len[i%nv]);
    vc_eq(sol[i][k],old[i][k],"vectors that do not form a state are not touched");
  }
}

CONTRACT(P_init)
{
  Sol s;
  int n0 = vc_pick("old",0,3), n = vc_pick("vectors",0,4);
  size_t l0 = vc_size("oldlength",1,2), len = vc_size("length",1,3);
  Vectors& sol = s.theSolutions();
  sol.resize(n0);
  for (Vector& v : sol) { v.resize(l0); vc_fill(v.ptr(),l0,"u"); }
  s.init(len,n);
  vc_eqi(sol.size(),n > 0 ? n : 1,"number of vectors, at least one");
  for (const Vector& v : sol) {
    vc_eqi(v.size(),len,"length of the vectors");
    size_t k = vc_index("k",len);
    vc_eq(v[k],0.0,"initialized to zero");
  }
  int ix = sol.size()-1;
  size_t m = vc_size("m",1,3);
  RealArray w(m);
  vc_fill(w.data(),m,"w");
  s.setSolution(w,ix);
  for (int i = 0; i < ix; i++) {
    size_t k = vc_index("k",len);
    vc_eq(s.getSolution(i)[k],0.0,"other vectors are not touched");
  }
  vc_eqi(s.getSolution(ix).size(),m,"assigned vector");
  size_t k = vc_index("k",m);
  vc_eq(s.getSolution(ix)[k],w[k],"assigned vector");
}
