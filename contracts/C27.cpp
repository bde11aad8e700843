// VC-TU: src/SIM/SIMsolution.C src/LinAlg/MatVec.C
// VC-TIME: 250
// VC-PATHS: 30000
#include "vc.h"
#include "SIMsolution.h"

struct Sol : public SIMsolution
{
  void init(size_t ndof, size_t nsol) { this->initSolution(ndof,nsol); }
  void push(unsigned short int n) { this->pushSolution(n); }
  void push() { this->pushSolution(); }
};

//! A stack of states with nv vectors each, which may have different lengths, and possibly some more vectors
static void shift(int maxStates, int maxVec, int maxLen)
{
  Sol s;
  int nv = vc_pick("vectors",1,maxVec), ns = vc_pick("states",0,maxStates), rest = nv > 1 ? vc_pick("rest",0,nv-1) : 0;
  std::vector<int> len(nv);
  for (int& l : len) l = vc_pick("length",0,maxLen);
  Vectors& sol = s.theSolutions();
  sol.resize(ns*nv+rest);
  for (size_t i = 0; i < sol.size(); i++) {
    sol[i].resize(len[i%nv]);
    vc_fill(sol[i].ptr(),sol[i].size(),"u");
  }
  Vectors old(sol);
  if (nv == 1 && vc_pick("default",0,1))
    s.push();
  else
    s.push(nv);
  vc_eqi(s.getSolutions().size(),old.size(),"number of vectors is kept");
  if (s.getSolutions().size() != old.size()) return;
  for (int n = 0; n < ns; n++)
    for (int i = 0; i < nv; i++) {
      const Vector& now = s.getSolution(n*nv+i);
      const Vector& want = old[n > 0 ? (n-1)*nv+i : i];
      vc_eqi(now.size(),want.size(),"length of the vector");
      for (size_t k = 0; k < want.size() && now.size() == want.size(); k++)
        if (n == 0) vc_eq(now[k],want[k],"the newest state is kept as start value");
        else        vc_eq(now[k],want[k],"each state moves one step back");
    }
  for (size_t i = ns*nv; i < old.size(); i++)
    for (size_t k = 0; k < old[i].size(); k++)
      vc_eq(sol[i][k],old[i][k],"vectors that do not form a state are not touched");
  if (ns > 2 && nv > 1) vc_cover("several states of several vectors");
}

CONTRACT(H_shift) { shift(4,3,2); }
CONTRACT(T_shift) { shift(7,3,2); }

CONTRACT(H_init)
{
  Sol s;
  int n0 = vc_pick("old",0,3), l0 = vc_pick("oldlength",0,2), n = vc_pick("vectors",0,4), len = vc_pick("length",0,3);
  Vectors& sol = s.theSolutions();
  sol.resize(n0);
  for (Vector& v : sol) { v.resize(l0); vc_fill(v.ptr(),l0,"u"); }
  s.init(len,n);
  vc_eqi(sol.size(),n > 0 ? n : 1,"number of vectors, at least one");
  for (const Vector& v : sol) {
    vc_eqi(v.size(),len,"length of the vectors");
    for (double x : v) vc_eq(x,0.0,"initialized to zero");
  }
  int ix = sol.size()-1;
  RealArray w(2);
  vc_fill(w.data(),2,"w");
  s.setSolution(w,ix);
  for (int i = 0; i <= ix; i++)
    if (i < ix)
      for (double x : s.getSolution(i)) vc_eq(x,0.0,"other vectors are not touched");
    else {
      vc_eqi(s.getSolution(i).size(),2,"assigned vector");
      for (int k = 0; k < 2; k++) vc_eq(s.getSolution(i)[k],w[k],"assigned vector");
    }
}
