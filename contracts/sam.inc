// A model of nodes, degrees of freedom, constraint equations and elements with symbolic coefficients, the equation tables
// the repository's SAM derives from it, and the relation u = T x + g written down directly from the constraints.
#include "SAM.h"
#include <vector>
#include <string>

struct TModel
{
  std::vector<int> nd;                                    // dofs per node
  std::vector<char> kind;                                 // 'F' fixed, '1'/'2' free (class), 'C' constrained
  std::vector<int> ceqDof;                                // slave dof of each constraint equation, in table order
  std::vector<double> c0;                                 // prescribed part of each constraint equation
  std::vector< std::vector< std::pair<int,double> > > mst;// masters (1-based dof, 0: eliminated) and their coefficients
  std::vector< std::vector<int> > elems;                  // signed 1-based nodes of each element
  // derived by the specification
  std::vector<int> eq, first;
  int ndof, neq;
  std::vector< std::vector<double> > T;
  std::vector<double> g;

  void derive()
  {
    ndof = kind.size();
    first.assign(1,0);
    for (int n : nd) first.push_back(first.back()+n);
    eq.assign(ndof,0);
    neq = 0;
    for (int d = 0; d < ndof; d++) if (kind[d] == '1') eq[d] = ++neq;
    for (int d = 0; d < ndof; d++) if (kind[d] == '2') eq[d] = ++neq;
    T.assign(ndof,std::vector<double>(neq,0.0));
    g.assign(ndof,0.0);
    for (int d = 0; d < ndof; d++) if (eq[d] > 0) T[d][eq[d]-1] = 1.0;
    for (size_t c = 0; c < ceqDof.size(); c++) {
      int d = ceqDof[c]-1;
      g[d] = c0[c];
      for (auto& m : mst[c])
        if (m.first > 0) T[d][eq[m.first-1]-1] += m.second;
    }
  }

  // dof indices (0-based) of an element in node order, -1 where the node is left out
  std::vector<int> elmDofs(int e) const
  {
    std::vector<int> r;
    for (int n : elems[e]) {
      int m = n < 0 ? -n : n;
      for (int d = n == 0 ? first[m] : first[m-1]; d < first[m]; d++) r.push_back(n > 0 ? d : -1);
    }
    return r;
  }
};

class TSam : public SAM
{
public:
  bool ok;
  explicit TSam(const TModel& m, bool doInit = true)
  {
    nnod = m.nd.size();
    nel  = m.elems.size();
    ndof = m.kind.size();
    nceq = m.ceqDof.size();
    madof = new int[nnod+1];
    madof[0] = 1;
    for (int i = 0; i < nnod; i++) madof[i+1] = madof[i] + m.nd[i];
    msc = new int[ndof];
    for (int d = 0; d < ndof; d++) msc[d] = m.kind[d] == '1' ? 1 : m.kind[d] == '2' ? 2 : 0;
    mpmnpc = new int[nel+1];
    mpmnpc[0] = 1;
    for (int e = 0; e < nel; e++) mpmnpc[e+1] = mpmnpc[e] + m.elems[e].size();
    nmmnpc = mpmnpc[nel]-1;
    mmnpc = new int[nmmnpc+1];
    int k = 0;
    for (auto& e : m.elems) for (int n : e) mmnpc[k++] = n;
    mpmceq = new int[nceq+1];
    mpmceq[0] = 1;
    for (int c = 0; c < nceq; c++) mpmceq[c+1] = mpmceq[c] + 1 + m.mst[c].size();
    nmmceq = mpmceq[nceq]-1;
    mmceq = new int[nmmceq+1];
    ttcc = new Real[nmmceq+1];
    k = 0;
    for (int c = 0; c < nceq; c++) {
      mmceq[k] = m.ceqDof[c]; ttcc[k++] = m.c0[c];
      for (auto& t : m.mst[c]) { mmceq[k] = t.first; ttcc[k++] = t.second; }
    }
    ok = doInit ? this->initSystemEquations() : true;
  }
  int status(int dof) const { return msc[dof-1]; }
  int equation(int dof) const { return meqn[dof-1]; }
  void setTypes(const char* nodeTypes, const char* dofTypes)
  {
    nodeType.assign(nodeTypes,nodeTypes+std::string(nodeTypes).size());
    dof_type.assign(dofTypes,dofTypes+std::string(dofTypes).size());
  }
  void setExternal(const int* ext) { minex = new int[nnod]; for (int i = 0; i < nnod; i++) minex[i] = ext[i]; }
};

// Partition of dofs over nodes
static std::vector<int> meshNodes(int mesh)
{
  switch (mesh) {
  case 0: return { 2, 2 };
  case 1: return { 1, 2, 1 };
  case 2: return { 3, 1 };
  case 3: return { 1, 1, 1, 1 };
  default: return { 2, 1, 2 };
  }
}

// All combinations of fixed, free, prescribed and slave dofs; constraint equations in ascending or descending order
static TModel pickModel(int mesh, bool reversal = true, int masters = -1)
{
  TModel m;
  m.nd = meshNodes(mesh);
  int n = 0;
  for (int k : m.nd) n += k;
  std::vector<char> kd(n);
  int cls = vc_pick("classes",0,1), rev = 0, sub = 0, nc = 0, ns = 0;
  for (int d = 0; d < n; d++) {
    int k = vc_pick("kind",0,3);
    kd[d] = k == 0 ? 'F' : k == 1 ? (cls && d%2 == 0 ? '2' : '1') : k == 2 ? 'P' : 'S';
    nc += k > 1;
    ns += k > 2;
  }
  if (nc > 1 && reversal) rev = vc_pick("reversed",0,1);
  if (ns > 0) sub = masters < 0 ? vc_pick("masters",0,1) : masters;
  m.kind.resize(n);
  for (int d = 0; d < n; d++) m.kind[d] = kd[d] == 'P' || kd[d] == 'S' ? 'C' : kd[d];
  for (int i = 0; i < n; i++) {
    int d = rev ? n-1-i : i;
    if (m.kind[d] != 'C') continue;
    m.ceqDof.push_back(d+1);
    m.c0.push_back(vc_real("c0"));
    std::vector< std::pair<int,double> > ms;
    if (kd[d] == 'S') {
      int j = 0;
      for (int k = 0; k < n; k++)
        if (m.kind[k] == '1' || m.kind[k] == '2')
          if (sub == 0 || (j++ + d)%2 == 0)
            ms.push_back(std::make_pair(k+1,vc_real("cm")));
      if (sub) std::vector< std::pair<int,double> >(ms.rbegin(),ms.rend()).swap(ms);
    }
    m.mst.push_back(ms);
  }
  m.derive();
  return m;
}
