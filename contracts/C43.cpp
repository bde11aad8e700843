// VC-TU: src/ASM/ImmersedBoundaries.C src/ASM/IBGeometries.C src/Utility/ElementBlock.C src/Utility/GaussQuadrature.C src/Utility/Vec3Oper.C src/Utility/Tensor.C src/LinAlg/MatVec.C
// VC-TIME: 150
// VC-ASSUME: sine and cosine are arbitrary values of the angle (with squares summing to one)
#include "vc.h"
#include "ImmersedBoundaries.h"
#include "IBGeometries.h"
#include "ElementBlock.h"
#include "Function.h"
#include "GaussQuadrature.h"
#include "Point.h"
#include "Vec3Oper.h"
#include <cmath>
#include <cstdlib>

namespace {

// ---- Integration cells of an element cut by a boundary ------------------------------------------------------------------------

//! An element divided into 4 x 4 squares, where the indicator has an own value in up to two of them
class Squares : public Immersed::Geometry
{
public:
  double x[4], y[4]; // vertices, cyclic (parallelogram)
  int s1, s2;
  double a0, a1;
  bool params; // look up by the parameters of the point
  double u0, v0, du, dv;

  void local(double X, double Y, double& xi, double& eta) const
  {
    // X = x0 + (x1-x0) r + (x3-x0) s
    double a = x[1]-x[0], b = x[3]-x[0], c = y[1]-y[0], d = y[3]-y[0], D = a*d-b*c;
    xi  = ((X-x[0])*d - (Y-y[0])*b)/D;
    eta = ((Y-y[0])*a - (X-x[0])*c)/D;
  }

  double value(double r, double s) const
  {
    int i = 0, j = 0;
    for (int k = 1; k < 4; k++) { if (r > 0.25*k) i = k; if (s > 0.25*k) j = k; }
    int q = i+4*j;
    return q == s1 || q == s2 ? a1 : a0;
  }

  double Alpha(const Vec3& X) const override
  {
    double r, s;
    if (params)
    {
      const Vec4* p = dynamic_cast<const Vec4*>(&X);
      r = (p->u[0]-u0)/du;
      s = (p->u[1]-v0)/dv;
    }
    else
      this->local(X.x,X.y,r,s);
    return this->value(r,s);
  }

  PointVec corners() const // tensor-product ordering
  {
    PointVec c;
    const int o[4] = { 0, 1, 3, 2 };
    for (int k = 0; k < 4; k++)
      c.push_back(utl::Point(Vec3(x[o[k]],y[o[k]],0.0),{u0+(k%2)*du,v0+(k/2)*dv,0.0}));
    return c;
  }
};

Squares element()
{
  Squares g;
  int shape = vc_pick("shape",0,1); // looked up by the coordinates or the parameters of the point
  const double X[2][4] = {{0,1,1,0},{1,3,4,2}}, Y[2][4] = {{0,0,1,1},{0,1,4,3}};
  for (int k = 0; k < 4; k++) { g.x[k] = X[shape][k]; g.y[k] = Y[shape][k]; }
  g.params = vc_thorough() ? vc_bool("parameters") : shape == 0;
  g.u0 = 2.0; g.v0 = -1.0; g.du = 0.5; g.dv = 4.0;
  const int at[6] = { 0, 3, 5, 6, 8, 14 };
  g.s1 = vc_thorough() ? vc_pick("square 1",-1,15) : at[vc_pick("square 1",0,5)];
  g.s2 = g.s1 < 0 || vc_bool("one square") ? -1 : vc_thorough() ? vc_pick("square 2",0,15) : at[vc_pick("square 2",0,2)];
  return g;
}

double power(double x, int n) { double r = 1.0; for (int i = 0; i < n; i++) r *= x; return r; }

}

// The integration points of all cells of an element integrate polynomials exactly, and those outside are left out
namespace {
void checkCells(Squares g, int depth, int n)
{
  g.a0 = 1.0; g.a1 = 2.0;
  Real3DMat all, part;
  vc_true(Immersed::getQuadraturePoints(g,{g.corners()},depth,n,all),"cells are generated");
  vc_eqi(all.size(),1,"one element");
  for (int a = 0; a < 2*n; a++)
    for (int b = 0; b < 2*n; b++)
    {
      double sum = 0.0;
      for (const RealArray& p : all[0]) sum += p[2]*power(p[0],a)*power(p[1],b);
      vc_near(sum,(a%2 ? 0.0 : 2.0/(a+1))*(b%2 ? 0.0 : 2.0/(b+1)),1.0e-10,"the cells of an element integrate polynomials exactly");
    }
  for (int which = 0; which < 2; which++)
  {
    g.a0 = which; g.a1 = 1-which;
    vc_true(Immersed::getQuadraturePoints(g,{g.corners()},depth,n,part),"cells of the part inside are generated");
    size_t k = 0;
    for (const RealArray& p : all[0])
      if (g.value(0.5*(1.0+p[0]),0.5*(1.0+p[1])) > 0.0)
      {
        vc_true(k < part[0].size(),"points inside are kept");
        if (k < part[0].size())
          for (int d = 0; d < 3; d++) vc_eq(part[0][k][d],p[d],"points inside are unchanged");
        ++k;
      }
    vc_eqi(part[0].size(),k,"points outside are left out");
  }
}
}

CONTRACT(H_cells)
{
  Squares g = element();
  checkCells(g,vc_size("depth",0,2),1);
}

CONTRACT(H_cells_points)
{
  Squares g = element();
  if (!vc_thorough() && (g.s1%3 || g.s2%3 == 1)) vc_stop();
  checkCells(g,vc_size("depth",0,2),2);
}

// A cell is divided exactly if the boundary passes between its corners
CONTRACT(H_refinement)
{
  Squares g = element();
  int depth = vc_size("depth",0,3);
  g.a0 = 1.0; g.a1 = 2.0;
  Real3DMat all;
  vc_true(Immersed::getQuadraturePoints(g,{g.corners()},depth,1,all),"cells are generated");
  auto cut = [&g](double x, double y, double h)
  {
    // h: half the side of the cell, in the domain [-1,1]; points are slightly within the cell
    double e = 0.001*h, a = 0.0;
    bool c = false;
    for (int k = 0; k < 4; k++)
    {
      double sx = k%2 ? h-e : e-h, sy = k/2 ? h-e : e-h;
      double v = g.value(0.5*(1.0+x+sx),0.5*(1.0+y+sy));
      if (k == 0) a = v;
      else if (v != a) c = true;
    }
    return c;
  };
  for (const RealArray& p : all[0])
  {
    int d = 0;
    double h = 1.0;
    while (d <= depth && 4.0*h*h > p[2]) { h *= 0.5; d++; }
    vc_eq(4.0*h*h,p[2],"weight of the cell is its area");
    vc_true(d <= depth,"cells are divided to the given depth at most");
    vc_true(d == depth || !cut(p[0],p[1],h),"cells that the boundary passes through are divided");
    if (d > 0)
    {
      // The cell this one is a quarter of
      double q = floor((p[0]+1.0)/(4.0*h)), r = floor((p[1]+1.0)/(4.0*h));
      vc_true(cut(-1.0+4.0*h*q+2.0*h,-1.0+4.0*h*r+2.0*h,2.0*h),"only cells that the boundary passes through are divided");
    }
  }
}

// Several elements
CONTRACT(H_immersed_elements)
{
  Squares g;
  for (int k = 0; k < 4; k++) { g.x[k] = k == 1 || k == 2; g.y[k] = k > 1; }
  g.params = false;
  g.u0 = g.v0 = 0.0; g.du = g.dv = 1.0;
  g.s1 = 5; g.s2 = -1;
  g.a0 = 1.0; g.a1 = 0.0;
  int bad = vc_pick("bad element",-1,2), kind = vc_pick("kind",0,1);
  std::vector<PointVec> corners(3,g.corners());
  if (bad >= 0) corners[bad].resize(kind ? 8 : 3);
  Real3DMat pts;
  bool ok = Immersed::getQuadraturePoints(g,corners,1,2,pts);
  vc_true(ok == (bad < 0),"failure in any element is reported");
  vc_eqi(pts.size(),3,"integration points of all elements");
  for (int e = 0; e < 3; e++)
    if (e != bad) vc_eqi(pts[e].size(),pts[bad == 0 ? 1 : 0].size(),"elements get their own points");
    else vc_eqi(pts[e].size(),0,"failed elements have no points");
  int ng = vc_bool("order") ? -1 : 11;
  vc_true(!Immersed::getQuadraturePoints(g,{g.corners()},1,ng,pts),"illegal number of points is reported");
}

// ---- Geometries ---------------------------------------------------------------------------------------------------------------

CONTRACT(H_hole)
{
  double R = vc_real_range("R",0.0,100.0), X = vc_real("X"), Y = vc_real("Y"), xc = vc_real("xc"), yc = vc_real("yc");
  Hole2D h(R,xc,yc);
  const Immersed::Geometry& geo = h;
  bool in = (X-xc)*(X-xc)+(Y-yc)*(Y-yc) <= R*R;
  vc_eq(geo.Alpha(X,Y,0.0),in ? 0.0 : 1.0,"points in the hole are outside the domain");
  vc_eq(geo.Alpha(Vec3(X,Y,vc_real("Z"))),in ? 0.0 : 1.0,"points in the hole are outside the domain (by vector)");
}

CONTRACT(H_oval)
{
  double R = vc_real_range("R",0.0,100.0), X = vc_real("X"), Y = vc_real("Y");
  int k = vc_pick("axis",0,3);
  const double D[4][3] = {{3,4,5},{-2,0,2},{0,1,1},{5,-12,13}};
  double xc = 1.0, yc = -2.0, dx = D[k][0], dy = D[k][1], L = D[k][2];
  Oval2D o(R,xc,yc,xc+dx,yc+dy);
  const Immersed::Geometry& geo = o;
  double s = (X-xc)*dx+(Y-yc)*dy, n = (X-xc)*dy-(Y-yc)*dx; // along and across the axis, times L
  double r1 = (X-xc)*(X-xc)+(Y-yc)*(Y-yc), r2 = (X-xc-dx)*(X-xc-dx)+(Y-yc-dy)*(Y-yc-dy);
  bool in = s <= 0.0 ? r1 <= R*R : s >= L*L ? r2 <= R*R : n <= L*R && -n <= L*R;
  vc_eq(geo.Alpha(X,Y,0.0),in ? 0.0 : 1.0,"points closer to the axis than the radius are outside the domain");
}

CONTRACT(H_perforated_plate)
{
  int n = vc_size("holes",0,2);
  PerforatedPlate2D plate;
  const Immersed::Geometry& geo = plate;
  double X = vc_real("X"), Y = vc_real("Y");
  bool in = false;
  for (int i = 0; i < n; i++)
  {
    double R = vc_real_range("R",0.0,100.0), x = vc_real("x"), y = vc_real("y");
    bool oval = i == 1 && vc_bool("oval");
    double x1 = x, y1 = y;
    if (oval) plate.addHole(R,x,y,x1,y1); // without extent
    else plate.addHole(R,x,y);
    in |= (X-x)*(X-x)+(Y-y)*(Y-y) <= R*R;
  }
  vc_eq(geo.Alpha(X,Y,0.0),in ? 0.0 : 1.0,"points in any of the holes are outside the domain");
}

namespace {
class Val : public RealFunc
{
public:
  double v;
  double evaluate(const Vec3&) const override { return v; }
};
}

CONTRACT(H_function_geometry)
{
  Val f;
  f.v = vc_real("f");
  double eps = vc_real("eps");
  GeoFunc2D g(&f,1.0,eps);
  const Immersed::Geometry& geo = g;
  vc_eq(geo.Alpha(Vec3(1,2,3)),f.v < eps ? 0.0 : 1.0,"points with values below the threshold are outside");
  GeoFunc2D none(nullptr,1.0,0.5);
  vc_eq(static_cast<const Immersed::Geometry&>(none).Alpha(Vec3()),0.0,"all points are outside without a function");
}

// A point has its own parameters, also after it has been assigned
CONTRACT(H_point)
{
  double a[6], b[6];
  vc_fill(a,6,"a");
  vc_fill(b,6,"b");
  utl::Point* P = new utl::Point(std::vector<double>(a,a+6));
  utl::Point Q(Vec3(b[0],b[1],b[2]),{b[3],b[4],b[5]});
  int op = vc_pick("operation",0,4);
  double w = vc_real("w");
  double e[6];
  utl::Point R;
  if (op == 0) { R = *P; for (int k = 0; k < 6; k++) e[k] = a[k]; }
  else if (op == 1) { R = *P + Q; for (int k = 0; k < 6; k++) e[k] = a[k]+b[k]; }
  else if (op == 2) { R = w*(*P); for (int k = 0; k < 6; k++) e[k] = w*a[k]; }
  else if (op == 3) { R = Q; R += *P; R *= w; for (int k = 0; k < 6; k++) e[k] = w*(a[k]+b[k]); }
  else { R = Q*w; R += *P; for (int k = 0; k < 6; k++) e[k] = w*b[k]+a[k]; }
  for (int k = 0; k < 6; k++) { const_cast<double*>(P->u)[k%3] = 0.0; }
  delete P;
  utl::Point C(R);
  R *= 2.0;
  for (int k = 0; k < 3; k++)
  {
    vc_eq(R[k],2.0*e[k],"coordinates of the point");
    vc_eq(R.u[k],2.0*e[3+k],"parameters of the point are its own");
    vc_eq(C[k],e[k],"coordinates of a copied point");
    vc_eq(C.u[k],e[3+k],"parameters of a copied point are its own");
  }
}

// ---- Grids for visualization --------------------------------------------------------------------------------------------------

namespace {

struct Elm { int id; std::vector<int> nodes; };

//! The elements of a grid, in internal order
std::vector<std::vector<int>> elements(const ElementBlock& g)
{
  std::vector<std::vector<int>> e(1);
  for (size_t i = 0; i < g.MMNPC.size(); i++)
    if (g.nen > 0)
    {
      if (e.back().size() == g.nen) e.push_back({});
      e.back().push_back(g.MMNPC[i]);
    }
    else if (g.MMNPC[i] < 0) e.push_back({});
    else e.back().push_back(g.MMNPC[i]);
  if (e.back().empty()) e.pop_back();
  return e;
}

const int sizes[4] = { 2, 3, 4, 8 };

//! A grid of elements of given types, with arbitrary coordinates
std::vector<Elm> makeGrid(ElementBlock& g, const std::vector<int>& nen, size_t nnod, bool params)
{
  size_t total = 0;
  for (int n : nen) total += n;
  g.unStructResize(nen.size(),nnod,total);
  std::vector<Elm> elms;
  size_t ip = 0;
  for (size_t e = 0; e < nen.size(); e++)
  {
    Elm elm;
    elm.id = e+1;
    for (int k = 0; k < nen[e]; k++)
    {
      int n = (3*e+2*k+1)%nnod;
      elm.nodes.push_back(n);
      g.setNode(ip++,n);
    }
    g.endOfElm(ip);
    elms.push_back(elm);
  }
  for (size_t i = 0; i < nnod; i++)
  {
    g.setCoor(i,vc_real("X"),vc_real("Y"),vc_real("Z"));
    if (params) g.setParams(i,vc_real("u"),vc_real("v"),vc_real("w"));
  }
  return elms;
}

void checkGrid(const ElementBlock& g, const std::vector<Elm>& elms, const char* what)
{
  std::vector<std::vector<int>> e = elements(g);
  vc_eqi(g.getNoElms(),elms.size(),what);
  vc_eqi(e.size(),elms.size(),what);
  if (e.size() != elms.size() || g.getNoElms() != elms.size()) return;
  for (size_t i = 0; i < elms.size(); i++)
  {
    vc_eqi(g.getElmId(i+1),elms[i].id,what);
    vc_eqi(e[i].size(),elms[i].nodes.size(),what);
    if (e[i].size() == elms[i].nodes.size())
      for (size_t k = 0; k < e[i].size(); k++) vc_eqi(e[i][k],elms[i].nodes[k],what);
  }
  // Elements of each type, in the order they are written
  size_t iel = 0, nTypes = 0;
  for (int n : sizes)
  {
    std::vector<int> ref, m;
    for (size_t i = 0; i < elms.size(); i++)
      if ((int)elms[i].nodes.size() == n)
      {
        if (g.getNoElmNodes() == 0) vc_eqi(g.getElmIndex(i),iel,"index of the element in the order of types");
        else vc_eqi(g.getElmIndex(i),i,"index of the element");
        ++iel;
        ref.insert(ref.end(),elms[i].nodes.begin(),elms[i].nodes.end());
      }
    bool any = g.getElements(m,n);
    if (g.getNoElmNodes() == 0 || !ref.empty()) vc_true(any == !ref.empty(),"elements of the type exist");
    vc_eqi(m.size(),ref.size(),"number of nodes in elements of the type");
    if (m.size() == ref.size())
      for (size_t k = 0; k < m.size(); k++) vc_eqi(m[k],ref[k],"nodes in elements of the type");
    if (!ref.empty()) ++nTypes;
  }
  vc_eqi(iel,elms.size(),"all elements are of some type");
}

std::vector<int> pickTypes(int n)
{
  std::vector<int> nen(n);
  bool uniform = vc_bool("uniform");
  for (int e = 0; e < n; e++) nen[e] = e > 0 && uniform ? nen[0] : sizes[vc_pick("type",0,2)];
  return nen;
}

}

CONTRACT(H_grid)
{
  int n = vc_size("elements",1,3);
  std::vector<int> nen = pickTypes(n);
  ElementBlock g(nen.front());
  bool params = vc_bool("parameters");
  std::vector<Elm> elms = makeGrid(g,nen,7,params);
  if (g.getNoElmNodes() > 0) // The types may sum up to a uniform size
    for (int t : nen) if (t != (int)g.getNoElmNodes()) vc_stop();
  checkGrid(g,elms,"elements of the grid");
  for (int e = 0; e < n; e++)
  {
    utl::Point C = g.getCenter(e+1);
    for (int k = 0; k < 3; k++)
    {
      double x = 0.0, u = 0.0;
      for (int i : elms[e].nodes) { x += g.getCoord(i)[k]; u += g.getParam(i)[k]; }
      vc_eq(C[k],x/nen[e],"center of the element");
      vc_eq(C.u[k],u/nen[e],"parameters in the center of the element");
    }
  }
  utl::Point C0 = g.getCenter(0), C1 = g.getCenter(n+1);
  for (int k = 0; k < 3; k++) { vc_eq(C0[k],0.0,"no element zero"); vc_eq(C1[k],0.0,"no element after the last"); }
  vc_true(g.getParam(7) == nullptr,"no parameters of other nodes");
  vc_true(!g.setCoor(7,Vec3()) && !g.setCoor(0,3,1.0) && !g.setParams(7,0.0,0.0) && !g.setNode(g.MMNPC.size(),1),"indices out of range are refused");
  g.setCoor(2,1,4.5);
  vc_eq(g.getCoord(2).y,4.5,"one coordinate is set");
}

CONTRACT(H_remove_element)
{
  int n = vc_size("elements",1,4);
  std::vector<int> nen(n);
  for (int e = 0; e < n; e++) nen[e] = sizes[vc_pick("type",0,n > 3 ? 1 : 2)];
  ElementBlock g(nen.front());
  std::vector<Elm> elms = makeGrid(g,nen,7,false);
  if (g.getNoElmNodes() > 0)
    for (int t : nen) if (t != (int)g.getNoElmNodes()) vc_stop();
  if (n > 2 && vc_bool("repeated")) { elms[n-1].id = 1; g.setElmId(n,1); }
  int id = vc_pick("id",0,n);
  g.removeElement(id);
  for (size_t i = 0; i < elms.size();)
    if (elms[i].id == id) elms.erase(elms.begin()+i);
    else ++i;
  checkGrid(g,elms,"remaining elements of the grid");
}

CONTRACT(H_merge)
{
  int n1 = vc_size("elements",0,2), n2 = vc_size("other elements",1,2), nen = sizes[vc_pick("type",0,2)];
  bool unique = vc_bool("unique");
  ElementBlock a(nen), b(nen);
  std::vector<Elm> e1, e2 = makeGrid(b,std::vector<int>(n2,nen),5,false);
  if (n1 > 0) e1 = makeGrid(a,std::vector<int>(n1,nen),5,false);
  size_t m1 = a.getNoNodes(), m2 = b.getNoNodes();
  // Distinct nodes, some of them shared between the grids
  int shared = vc_pick("shared",0,2);
  for (size_t i = 0; i < m1; i++) a.setCoor(i,i,1.0,0.0);
  for (size_t i = 0; i < m2; i++) b.setCoor(i,10.0+i,1.0,0.0);
  if (m1 > 0 && shared > 0) b.setCoor(3,a.getCoord(1));
  if (m1 > 0 && shared > 1) b.setCoor(0,a.getCoord(4));
  if (n1 > 0 && vc_bool("renumbered")) { e1[0].id = 7; a.setElmId(1,7); }
  int maxId = 0;
  for (const Elm& e : e1) if (e.id > maxId) maxId = e.id;
  std::vector<int> nodes;
  a.merge(&b,nodes,unique);
  vc_eqi(nodes.size(),m2,"node numbers of the merged grid");
  size_t nn = m1;
  std::vector<int> map;
  for (size_t i = 0; i < m2; i++)
    if (unique && m1 > 0 && shared > 0 && i == 3) map.push_back(1);
    else if (unique && m1 > 0 && shared > 1 && i == 0) map.push_back(4);
    else map.push_back(nn++);
  vc_eqi(a.getNoNodes(),nn,"number of nodes in the merged grid");
  for (size_t i = 0; i < m2 && i < nodes.size(); i++)
  {
    vc_eqi(nodes[i],map[i],"node number in the merged grid");
    for (int k = 0; k < 3; k++) vc_eq(a.getCoord(nodes[i])[k],b.getCoord(i)[k],"nodes keep their coordinates");
  }
  for (Elm e : e2)
  {
    e.id += maxId;
    for (int& i : e.nodes) i = map[i];
    e1.push_back(e);
  }
  checkGrid(a,e1,"elements of the merged grid");
}

CONTRACT(H_merge_mixed)
{
  ElementBlock a(4), b(4);
  std::vector<int> t1 = {sizes[vc_pick("type",0,2)],sizes[vc_pick("type",0,2)]}, t2 = {sizes[vc_pick("type",0,2)],sizes[vc_pick("type",0,2)]};
  std::vector<Elm> e1 = makeGrid(a,t1,4,false), e2 = makeGrid(b,t2,4,false);
  if (a.getNoElmNodes() > 0 || b.getNoElmNodes() > 0) vc_stop();
  a.merge(b,false);
  for (Elm e : e2)
  {
    e.id += 2;
    for (int& i : e.nodes) i += 4;
    e1.push_back(e);
  }
  checkGrid(a,e1,"elements of the merged grid of mixed types");
}

CONTRACT(H_lines)
{
  ElementBlock g(2), h(4);
  double x[6];
  vc_fill(x,6,"x");
  vc_true(!h.addLine(0,0,0,1,1,1) && h.addLine(0,Vec3()) == 0,"lines are not added to grids of other elements");
  vc_true(g.addLine(x[0],x[1],x[2],x[3],x[4],x[5]),"a line is added");
  int id = vc_pick("id",-1,9);
  vc_eqi(g.addLine(1,Vec3(7,8,9),id),2,"node at the end of the line");
  vc_eqi(g.addLine(3,Vec3(7,8,9)),0,"lines cannot start in nodes that do not exist");
  for (int k = 0; k < 3; k++)
  {
    vc_eq(g.getCoord(0)[k],x[k],"start of the line");
    vc_eq(g.getCoord(1)[k],x[3+k],"end of the line");
    vc_eq(g.getCoord(2)[k],7+k,"end of the second line");
  }
  checkGrid(g,{{1,{0,1}},{id < 0 ? 2 : id,{1,2}}},"lines of the grid");
}

CONTRACT(H_structured_size)
{
  int nen = vc_pick("nen",0,6);
  const int legal[7] = { 2, 3, 4, 5, 9, 8, 27 };
  nen = legal[nen];
  int i = vc_size("I",2,3), j = vc_size("J",1,3), k = vc_size("K",1,3);
  ElementBlock g(nen);
  if (nen == 5) { vc_eqi(g.getNoElmNodes(),8,"illegal numbers of element nodes are replaced"); nen = 8; }
  bool line = nen == 2, surf = nen == 3 || nen == 4 || nen == 9, quadr = nen == 9 || nen == 27;
  if (line) j = k = 1;
  else if (surf) { if (j < 2) vc_stop(); k = 1; }
  else if (j < 2 || k < 2) vc_stop();
  if (quadr && (i%2 == 0 || j%2 == 0 || (nen == 27 && k%2 == 0))) vc_stop();
  g.resize(i,j,k);
  int ne = line ? i-1 : surf ? (i-1)*(j-1) : (i-1)*(j-1)*(k-1);
  if (nen == 9) ne /= 4;
  if (nen == 27) ne /= 8;
  if (nen == 3) ne *= 2;
  vc_eqi(g.getNoNodes(),i*j*k,"number of nodes in a structured grid");
  vc_eqi(g.getNoElms(),ne,"number of elements in a structured grid");
  vc_eqi(g.MMNPC.size(),ne*nen,"number of element nodes in a structured grid");
  for (int e = 1; e <= ne; e++) vc_eqi(g.getElmId(e),e,"element numbers in a structured grid");
  for (int n = 0; n < i*j*k; n++) vc_true(g.getParam(n) != nullptr,"nodes in a structured grid have parameters");
}

CONTRACT(H_transform)
{
  ElementBlock g(2);
  double x[3];
  vc_fill(x,3,"x");
  g.addLine(x[0],x[1],x[2],0,0,0);
  Matrix T;
  g.transform(T);
  for (int k = 0; k < 3; k++) vc_eq(g.getCoord(0)[k],x[k],"no transformation");
  T.resize(3,3);
  for (int i = 1; i <= 3; i++) for (int j = 1; j <= 3; j++) T(i,j) = vc_real("T");
  g.transform(T);
  for (int k = 1; k <= 3; k++) vc_eq(g.getCoord(0)[k-1],T(k,1)*x[0]+T(k,2)*x[1]+T(k,3)*x[2],"transformed coordinates");
}

namespace {
//! Each edge of a closed surface is shared by two elements, in opposite directions if the surface is consistently oriented
void checkClosed(const ElementBlock& g, int nnod, bool oriented)
{
  std::vector<std::vector<int>> e = elements(g);
  std::vector<int> used(nnod,0);
  std::vector<std::pair<int,int>> edges;
  for (const std::vector<int>& n : e)
    for (size_t k = 0; k < n.size(); k++)
    {
      vc_true(n[k] >= 0 && n[k] < nnod,"elements refer to nodes of the grid");
      if (n[k] < 0 || n[k] >= nnod) vc_stop();
      used[n[k]]++;
      int m = n[(k+1)%n.size()];
      if (m != n[k]) edges.push_back({n[k],m});
    }
  for (int i = 0; i < nnod; i++) vc_true(used[i] > 0,"all nodes of the surface are used");
  for (const std::pair<int,int>& a : edges)
  {
    int same = 0, opposite = 0;
    for (const std::pair<int,int>& b : edges)
      if (a == b) ++same;
      else if (a.first == b.second && a.second == b.first) ++opposite;
    vc_eqi(same+opposite,2,"each edge of a closed surface is shared by two elements");
    if (oriented) vc_eqi(same,1,"elements of a closed surface have the same orientation");
  }
}
}

CONTRACT(H_sphere)
{
  int nt = vc_size("around",3,5), np = vc_size("along",2,4);
  double R = vc_real_range("R",0.1,10.0);
  Vec3 X0(vc_real("x"),vc_real("y"),vc_real("z"));
  SphereBlock g(X0,R,nt,np);
  int nn = 2+nt*(np-1);
  vc_eqi(g.getNoNodes(),nn,"nodes of the sphere");
  vc_eqi(g.getNoElms(),nt*np,"elements of the sphere");
  checkClosed(g,nn,true);
  // All nodes except the poles are in circles of equal height
  for (int k = 0; k < 3; k++)
  {
    vc_eq(g.getCoord(0)[k],X0[k]+(k == 2 ? R : 0.0),"north pole of the sphere");
    vc_eq(g.getCoord(1)[k],X0[k]-(k == 2 ? R : 0.0),"south pole of the sphere");
  }
  for (int n = 1; n < nt; n++)
    for (int m = 0; m < np-1; m++)
      vc_eq(g.getCoord(2+n*(np-1)+m).z,g.getCoord(2+m).z,"nodes around the sphere have equal height");
}

CONTRACT(H_cylinder)
{
  int nt = vc_size("around",3,5);
  double R = vc_real_range("R",0.1,10.0), L = vc_real_range("L",0.1,10.0);
  Vec3 X0(vc_real("x"),vc_real("y"),vc_real("z")), X1(X0);
  int axis = vc_pick("axis",0,2);
  X1[axis] += L;
  CylinderBlock g(X0,X1,R,nt);
  int nn = 2+2*nt;
  vc_eqi(g.getNoNodes(),nn,"nodes of the cylinder");
  vc_eqi(g.getNoElms(),3*nt,"elements of the cylinder");
  checkClosed(g,nn,false);
  for (int k = 0; k < 3; k++)
  {
    vc_eq(g.getCoord(0)[k],X0[k],"center of the first end");
    vc_eq(g.getCoord(nt+1)[k],X1[k],"center of the second end");
  }
  for (int n = 0; n < nt; n++)
  {
    vc_eq(g.getCoord(1+n)[axis],X0[axis],"nodes of the first end");
    for (int k = 0; k < 3; k++)
      vc_eq(g.getCoord(2+nt+n)[k]-g.getCoord(1+n)[k],k == axis ? L : 0.0,"nodes of the second end are along the axis");
  }
}

CONTRACT(H_plane_and_cube)
{
  Vec3 X0(vc_real("x"),vc_real("y"),vc_real("z"));
  if (vc_bool("plane"))
  {
    Vec3 X1(vc_real("x"),vc_real("y"),vc_real("z")), X2(vc_real("x"),vc_real("y"),vc_real("z"));
    PlaneBlock g(X0,X1,X2);
    checkGrid(g,{{1,{0,1,2,3}}},"element of the plane");
    for (int k = 0; k < 3; k++)
    {
      vc_eq(g.getCoord(0)[k],X0[k],"first corner of the plane");
      vc_eq(g.getCoord(1)[k],X1[k],"second corner of the plane");
      vc_eq(g.getCoord(3)[k],X2[k],"third corner of the plane");
      vc_eq(g.getCoord(2)[k],X1[k]+X2[k]-X0[k],"last corner of the plane");
    }
  }
  else
  {
    double d = vc_real("d");
    CubeBlock g(X0,d);
    checkGrid(g,{{1,{0,1,2,3,4,5,6,7}}},"element of the cube");
    const int s[8][3] = {{-1,-1,-1},{1,-1,-1},{1,1,-1},{-1,1,-1},{-1,-1,1},{1,-1,1},{1,1,1},{-1,1,1}};
    for (int i = 0; i < 8; i++)
      for (int k = 0; k < 3; k++) vc_eq(g.getCoord(i)[k],X0[k]+0.5*s[i][k]*d,"corner of the cube");
    utl::Point C = g.getCenter(1);
    for (int k = 0; k < 3; k++) vc_eq(C[k],X0[k],"center of the cube");
  }
}
