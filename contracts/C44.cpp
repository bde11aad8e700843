// VC-TU: src/ASM/ASMutils.C src/ASM/ASMu1DLag.C src/ASM/ASMu2DLag.C src/ASM/ASMLagBase.C src/ASM/ASMbase.C src/ASM/ASM1D.C src/ASM/ASM2D.C src/ASM/BasisFunctionCache.C src/Utility/MPC.C src/Utility/Utilities.C src/Utility/Vec3Oper.C src/Utility/ElementBlock.C src/Utility/ThreadGroups.C src/Utility/Tensor.C
// VC-TIME: 200
// VC-ASSUME: The constructors and the coordinate function of the structured base classes, whose sources need a spline library that is not there, and the XML library are replaced by stand-ins in the contract files
#include "vc.h"
#include "xml.inc"
#include "ASMu1DLag.h"
#include "ASMu2DLag.h"
#include "ASMutils.h"
#include "ElementBlock.h"
#include "MPC.h"
#include "IFEM.h"
#include "LogStream.h"
#include "Integrand.h"
#include "Vec3.h"
#include "Utilities.h"
#include <sstream>

utl::LogStream IFEM::cout(std::cout);

// ---- Stand-ins for the structured base classes -----------------------------
ASMstruct::ASMstruct(unsigned char n_p, unsigned char n_s, unsigned char n_f) : ASMbase(n_p,n_s,n_f) {}
ASMstruct::~ASMstruct() {}
ASMs1D::ASMs1D(unsigned char n_s, unsigned char n_f) : ASMstruct(1,n_s,n_f), elmCS(myCS), nodalT(myT) {}
ASMs1DLag::ASMs1DLag(unsigned char n_s, unsigned char n_f) : ASMs1D(n_s,n_f), ASMLagBase() {}
size_t ASMs1D::getNoNodes(int basis) const { return this->ASMbase::getNoNodes(basis); }
Vec3 ASMs1DLag::getCoord(size_t n) const { return coord[n-1]; }
ASMs2D::ASMs2D(unsigned char n_s, unsigned char n_f) : ASMstruct(2,n_s,n_f), nodeInd(myNodeInd) {}
ASMs2D::~ASMs2D() {}
size_t ASMs2D::getNoNodes(int basis) const { return this->ASMbase::getNoNodes(basis); }
size_t ASMs2D::getNodeIndex(int globalNum, bool) const { return 1 + utl::findIndex(MLGN,globalNum); }
int ASMs2D::getNodeID(size_t inod, bool) const { return inod < 1 || inod > MLGN.size() ? 0 : MLGN[inod-1]; }
ASMs2D::BasisFunctionCache::BasisFunctionCache(const ASMs2D& pch) : patch(pch) {}
ASMs2DLag::BasisFunctionCache::BasisFunctionCache(const ASMs2DLag& pch) : ASMs2D::BasisFunctionCache(pch) {}
ASMs2DLag::ASMs2DLag(unsigned char n_s, unsigned char n_f) : ASMs2D(n_s,n_f), ASMLagBase() {}
Vec3 ASMs2DLag::getCoord(size_t n) const { return coord[n-1]; }

namespace {

//! A patch that can be given its nodes and elements directly
class Patch1 : public ASMu1DLag
{
public:
  Patch1(char type, unsigned char ns = 2) : ASMu1DLag(ns,1,type) {}
};

class Patch2 : public ASMu2DLag
{
public:
  explicit Patch2(char type) : ASMu2DLag(2,2,type) {}
};

bool sameSet(const IntVec& a, const IntVec& b) { return a == b; }
std::string num(int i) { return i < 10 ? std::string(1,'0'+i) : std::string(1,'0'+i/10)+std::string(1,'0'+i%10); }

//! The grid of the texts below: 2 x 1 quadrilaterals and a line
const double X[7][2] = { { 0,0 },{ 1,0 },{ 2,0.5 },{ 0,1 },{ 1,1 },{ 2,1.5 },{ 3,0.25 } };
const char* const XT[7] = { "0 0 0","1 0 0","2 0.5 0","0 1 0","1 1 0","2 1.5 0","3 0.25 0" };

std::string commas(const char* s, bool blanks)
{
  std::string t;
  for (; *s; s++) if (*s == ' ') t += blanks ? ", " : ","; else t += *s;
  return t;
}

//! Options of the matlab file
struct Matlab
{
  bool odd, empty, planar;
  const char* set;
  int lastBad, longSet;
  std::string text(bool lines) const
  {
    std::string s = "function [Node, Element";
    if (set) s += std::string(", ") + set;
    if (empty) s += ", none";
    s += "]=grid\n";
    if (set) s += std::string("\n  ") + set + (longSet ? "=[1, 2,...\n    3, 6,...\n    7];\n" : "=[4, 2];\n");
    if (empty) s += "\n  none=[];\n";
    s += "\n  Node=[";
    for (int i = 0; i < 7; i++) {
      std::string x = commas(XT[i],true);
      s += num(i+1) + ", " + (planar ? x.substr(0,x.size()-3) : x) + (i < 6 ? "\n        " : "];\n");
    }
    s += planar ? "  Node=Node(:,2:3);\n" : "  Node=Node(:,2:4);\n";
    s += "\n  Element=[";
    if (lines)
      s += "1, 1, 2\n           2, 2, 3\n           3, 3, 7";
    else {
      s += "1, 1, 2, 5, 4\n";
      s += odd ? "2, 3, 7\n3, 2, 3, 6, 5" : "2, 2, 3, 6, 5\n3, 3, 7";
    }
    if (lastBad) s += "\n           4, 4, 5, 6";
    s += lines ? "];\n  Element=Element(:,2:3);\n" : "];\n  Element=Element(:,2:5);\n";
    return s;
  }
};

}

CONTRACT(H_matlab_grid)
{
  static const char* const names[] = { nullptr, "abc", "abcdef", "Boundary", "N", "myset_no_1" };
  Matlab m;
  m.lastBad = vc_bool("element type not supported");
  m.set = names[vc_pick("set",0,5)];
  m.longSet = vc_bool("long set");
  m.empty = vc_bool("empty set");
  m.planar = m.longSet;
  bool lines = vc_bool("lines");
  m.odd = !lines && m.lastBad;
  std::istringstream is(m.text(lines));
  IntMat mnpc;
  std::vector<Vec3> xyz;
  std::vector<ASM::NodeSet> sets;
  if (lines) {
    Patch1 p(m.empty ? 'm' : 'M');
    vc_true(p.read(is),"a matlab file is read");
    mnpc = p.MNPC; xyz = p.coord; sets = p.nodeSets;
    vc_true(p.elemSets.empty(),"no element sets");
  }
  else {
    Patch2 p(m.empty ? 'm' : 'M');
    vc_true(p.read(is),"a matlab file is read");
    mnpc = p.MNPC; xyz = p.coord; sets = p.nodeSets;
    vc_true(p.elemSets.empty(),"no element sets");
  }
  vc_eqi(xyz.size(),7,"number of nodes");
  for (size_t i = 0; i < 7 && i < xyz.size(); i++) {
    vc_eq(xyz[i].x,X[i][0],"coordinate of a node");
    vc_eq(xyz[i].y,X[i][1],"coordinate of a node");
    vc_eq(xyz[i].z,0.0,"coordinate of a node");
  }
  IntMat want;
  if (lines) want = { { 0,1 },{ 1,2 },{ 2,6 } };
  else if (m.odd) want = { { 0,1,3,4 },{ 2,6 },{ 1,2,4,5 } };
  else want = { { 0,1,3,4 },{ 1,2,4,5 },{ 2,6 } };
  vc_eqi(mnpc.size(),want.size(),"number of elements");
  for (size_t e = 0; e < want.size() && e < mnpc.size(); e++)
    vc_true(sameSet(mnpc[e],want[e]),"nodes of an element");
  size_t nset = (m.set ? 1 : 0) + m.empty;
  vc_eqi(sets.size(),nset,"number of node sets");
  if (sets.size() != nset) return;
  if (m.set) {
    vc_true(sets.front().first == m.set,"name of a node set");
    vc_true(sameSet(sets.front().second,m.longSet ? IntVec({ 1,2,3,6,7 }) : IntVec({ 4,2 })),"nodes of a node set");
  }
  if (m.empty) vc_true(sets.back().first == "none" && sets.back().second.empty(),"empty node set");
}

CONTRACT(H_not_a_grid)
{
  static const char* const texts[] = { "", "function [Node]=a\n", "[Node,Element]=a\n", "function [Element]=a\n", "<patch>\n", "<nodes>\n0 0 0\n</nodes>\n" };
  static const char types[] = { 'm','M','x','X','g',0 };
  int t = vc_pick("text",0,5), c = vc_pick("type",0,5);
  std::istringstream i1(texts[t]), i2(texts[t]);
  Patch1 p1(types[c]);
  Patch2 p2(types[c]);
  vc_true(!p1.read(i1) && !p2.read(i2),"this is not a grid");
  vc_true(p1.empty() && p2.empty(),"there is no grid");
}

CONTRACT(H_xml_grid)
{
  bool longLine = vc_bool("long lines"), upper = longLine, comment = vc_bool("comment");
  int nset = vc_pick("node sets",0,2), eset = 2-nset, order = comment;
  bool lines = vc_bool("lines"), more = vc_bool("more");
  std::string sep = longLine ? "    " : "\n", s = upper ? "  <patch>\n" : "<patch>\n";
  if (comment) s += "<!-- the <nodes> of the grid -->\n";
  std::string nodes = upper ? "<Nodes>\n" : "<nodes>\n", elems;
  for (int i = 0; i < 7; i++) nodes += XT[i] + sep;
  nodes += upper ? "</Nodes>\n" : "</nodes>\n";
  if (lines)
    elems = "<elements>\n0 1" + sep + "1 2" + sep + "2 6" + sep + "</elements>\n";
  else
    elems = "<elements nenod=\"4\">\n0 1 3 4" + sep + "1 2 4 5\n</elements>\n<elements nenod=\"2\">2 6</elements>\n";
  if (more) elems += "<elements nenod=\"1\">\n3\n</elements>\n";
  s += order ? elems + nodes : nodes + elems;
  if (nset > 0) s += "<nodeset name=\"left\">0" + sep + "3</nodeset>\n";
  if (eset > 0) s += "<elementset name=\"ends\">0 2</elementset>\n";
  if (nset > 1) s += "<nodeset name=\"top\"> 3 4 5 </nodeset>\n";
  if (eset > 1) s += "<elementset name=\"left\">0</elementset>\n";
  s += "</patch>\n<patch>\nnext";
  std::istringstream is(s);
  IntMat mnpc;
  std::vector<Vec3> xyz;
  std::vector<ASM::NodeSet> sets, esets;
  if (lines) {
    Patch1 p(upper ? 'x' : 'X');
    vc_true(p.read(is),"an XML file is read");
    mnpc = p.MNPC; xyz = p.coord; sets = p.nodeSets; esets = p.elemSets;
  }
  else {
    Patch2 p(upper ? 'x' : 'X');
    vc_true(p.read(is),"an XML file is read");
    mnpc = p.MNPC; xyz = p.coord; sets = p.nodeSets; esets = p.elemSets;
  }
  std::string rest;
  std::getline(is,rest);
  vc_true(rest == "<patch>","the rest is left for the next patch");
  vc_eqi(xyz.size(),7,"number of nodes");
  for (size_t i = 0; i < 7 && i < xyz.size(); i++) {
    vc_eq(xyz[i].x,X[i][0],"coordinate of a node");
    vc_eq(xyz[i].y,X[i][1],"coordinate of a node");
    vc_eq(xyz[i].z,0.0,"coordinate of a node");
  }
  IntMat want;
  if (lines) want = { { 0,1 },{ 1,2 },{ 2,6 } };
  else want = { { 0,1,3,4 },{ 1,2,4,5 },{ 2,6 } };
  if (more) want.push_back({ 3 });
  vc_eqi(mnpc.size(),want.size(),"number of elements");
  for (size_t e = 0; e < want.size() && e < mnpc.size(); e++)
    vc_true(sameSet(mnpc[e],want[e]),"nodes of an element");
  vc_eqi(sets.size(),nset,"number of node sets");
  vc_eqi(esets.size(),eset,"number of element sets");
  if ((int)sets.size() != nset || (int)esets.size() != eset) return;
  if (nset > 0) vc_true(sets[0].first == "left" && sameSet(sets[0].second,{ 1,4 }),"node set");
  if (nset > 1) vc_true(sets[1].first == "top" && sameSet(sets[1].second,{ 4,5,6 }),"node set");
  if (eset > 0) vc_true(esets[0].first == "ends" && sameSet(esets[0].second,{ 1,3 }),"element set");
  if (eset > 1) vc_true(esets[1].first == "left" && sameSet(esets[1].second,{ 1 }),"element set");
}

namespace {

//! Gives a patch a 3 x 1 grid of quadrilaterals, or three lines, with the nodes at symbolic positions
template<class P> void fillGrid(P& p, bool lines, bool external)
{
  for (int i = 0; i < 8; i++) p.myCoord.push_back(Vec3(vc_real("x"),vc_real("y"),lines ? 0.0 : vc_real("z")));
  if (lines) p.myMNPC = { { 0,1 },{ 1,2 },{ 2,3 } };
  else p.myMNPC = { { 0,1,4,5 },{ 1,2,5,6 },{ 2,3,6,7 } };
  if (external) {
    p.myMLGN = { 12,11,14,13,8,7,6,5 };
    p.myMLGE = { 9,4,7 };
  }
}

template<class P> void elementSets(P& p, bool before, bool external, bool lines)
{
  fillGrid(p,lines,external);
  auto generate = [&p]() {
    ASMbase::resetNumbering();
    if (ASMu2DLag* q = dynamic_cast<ASMu2DLag*>(static_cast<ASMbase*>(&p))) vc_true(q->generateFEMTopology(),"topology");
    if (ASMu1DLag* q = dynamic_cast<ASMu1DLag*>(static_cast<ASMbase*>(&p))) vc_true(q->generateOrientedFEModel(Vec3()),"topology");
  };
  if (!before) generate();
  const char* id1 = external ? "9" : "1", *id23 = external ? "7,4" : "3,2";
  bool again = vc_bool("two items"), all = vc_bool("all"), missing = vc_bool("missing element"), other = vc_bool("another set");
  int first = 1;
  if (other) {
    vc_eqi(p.parseElemSet("other",id1),1,"index of the first set");
    first = 2;
  }
  vc_eqi(p.parseElemSet("set",all ? "all" : id23),first,"index of the set");
  if (again) vc_eqi(p.parseElemSet("set",id1),first,"index of the set");
  if (missing) vc_eqi(p.parseElemSet("set",external ? "3" : "4"),first,"index of the set");
  if (before) generate();
  IntVec want = all ? IntVec({ 1,2,3 }) : IntVec({ 3,2 });
  if (again) want.push_back(1);
  vc_eqi(p.getElementSetIdx("set"),first,"index of the set");
  vc_eqi(p.getElementSetIdx("none"),0,"there is no such set");
  vc_true(sameSet(p.getElementSet(first),want),"elements of the set");
  vc_true(p.getElementSet(first+1).empty() && p.getElementSet(0).empty(),"there is no such set");
  std::string name;
  vc_true(!p.getElementSet(0,name) && !p.getElementSet(first+1,name) && name.empty(),"there is no such set");
  vc_true(p.getElementSet(first,name) && name == "set","name of the set");
  for (int e = 1; e <= 3; e++) {
    bool in = all || again || e > 1;
    vc_eqi(p.isInElementSet(first,e),in,"element in the set");
    vc_eqi(p.isInElementSet(first,-p.MLGE[e-1]),in,"element in the set by its external number");
    if (other) vc_eqi(p.isInElementSet(1,e),e == 1,"element in the other set");
    vc_true(!p.isInElementSet(0,e) && !p.isInElementSet(first+1,e),"there is no such set");
  }
  vc_true(!p.isInElementSet(first,4) && !p.isInElementSet(first,-99),"there is no such element");
  // The sets are sets of internal indices, whatever the global numbers are
  p.shiftGlobalElmNums(20);
  vc_true(sameSet(p.getElementSet(first),want),"elements of the set");
  for (int e = 1; e <= 3; e++)
    vc_eqi(p.isInElementSet(first,-p.MLGE[e-1]),all || again || e > 1,"element in the set by its new external number");
}

}

CONTRACT(H_element_sets)
{
  bool before = vc_bool("before"), external = vc_bool("external numbers");
  if (vc_bool("lines")) { Patch1 p('m'); elementSets(p,before,external,true); }
  else { Patch2 p('m'); elementSets(p,before,external,false); }
}

CONTRACT(H_topology)
{
  // Two patches, of lines or quadrilaterals, generated in turn
  bool lines = vc_bool("lines"), external = vc_bool("external numbers"), twice = vc_bool("twice");
  Patch1 a1('m'), b1('m');
  Patch2 a2('m'), b2('m');
  ASMbase* a = lines ? static_cast<ASMbase*>(&a1) : &a2;
  ASMbase* b = lines ? static_cast<ASMbase*>(&b1) : &b2;
  if (lines) { fillGrid(a1,true,external); fillGrid(b1,true,false); } else { fillGrid(a2,false,external); fillGrid(b2,false,false); }
  auto gen = [lines](ASMbase* p) { return lines ? static_cast<ASMu1DLag*>(p)->generateOrientedFEModel(Vec3()) : p->generateFEMTopology(); };
  if (vc_bool("wrong")) {
    a->myMLGN = { 1,2,3 };
    vc_true(!gen(a),"the numbers of nodes and elements must match");
    return;
  }
  vc_true(a->empty(),"nothing there yet");
  ASMbase::resetNumbering();
  vc_true(gen(a) && gen(b),"topology");
  if (twice && !lines) {
    ASMbase::resetNumbering();
    vc_true(gen(a) && gen(b),"topology again");
  }
  for (ASMbase* p : { a,b }) {
    vc_true(!p->empty(),"the patch has elements");
    vc_eqi(p->getNoNodes(),8,"number of nodes");
    vc_eqi(p->getNoElms(),3,"number of elements");
    vc_eqi(p->MLGN.size(),8,"number of nodes");
    vc_eqi(p->MLGE.size(),3,"number of elements");
    for (int i = 0; i < 8 && !(external && p == a); i++) vc_eqi(p->MLGN[i],i+1+(p == b ? 8 : 0),"global node number");
    for (int i = 0; i < 3 && !(external && p == a); i++) vc_eqi(p->MLGE[i],i+1+(p == b ? 3 : 0),"global element number");
  }
  if (external) vc_true(sameSet(a->MLGN,{ 12,11,14,13,8,7,6,5 }) && sameSet(a->MLGE,{ 9,4,7 }),"given numbers are kept");
}

CONTRACT(H_boxes)
{
  // The elements with centre in the box, and the nodes in it
  Patch2 p('m');
  const int nx = vc_pick("elements",1,2);
  // one node at any position, others inside or below the box
  const int any = vc_pick("node",0,1);
  for (int i = 0; i < 2*(nx+1); i++) p.myCoord.push_back(i == any ? Vec3(vc_real("x"),vc_real("y"),vc_real("z")) : Vec3(0.25*i,i == 3 ? -5.0 : 1.5,i == 4 ? 9.0 : 3.5));
  for (int e = 0; e < nx; e++) p.myMNPC.push_back({ e,e+1,nx+1+e,nx+2+e });
  if (vc_bool("after")) { ASMbase::resetNumbering(); vc_true(p.generateFEMTopology(),"topology"); }
  const double lo[3] = { 0.0,-1.0,-2.0 }, hi[3] = { 1.0,2.0,3.5 };
  const char* box = "0 -1 -2 1 2 3.5";
  if (vc_bool("nodes")) {
    IntVec want;
    bool have = vc_bool("existing set");
    if (have) p.nodeSets = { { "other",{ 1 } },{ "set",{ 2 } } };
    for (size_t i = 0; i < p.coord.size(); i++) {
      bool in = true;
      for (int j = 0; j < 3 && in; j++) in = p.coord[i][j] >= lo[j] && p.coord[i][j] <= hi[j];
      if (in) want.push_back(1+i);
    }
    int set = p.parseNodeBox("set",box);
    vc_eqi(set,want.empty() ? 0 : (have ? 2 : 1),"index of the node set");
    IntVec exp = have ? IntVec(1,2) : IntVec();
    for (int n : want) if (!have || n != 2) exp.push_back(n);
    if (set > 0) vc_true(sameSet(p.nodeSets[set-1].second,exp) && p.nodeSets[set-1].first == "set","the nodes in the box are in the set");
    if (!have) vc_eqi(p.nodeSets.size(),want.empty() ? 0 : 1,"number of node sets");
    return;
  }
  int uni = vc_pick("union with",0,2); // no set, existing set, non-existing set
  bool have = vc_bool("existing set");
  if (have || uni == 1) p.elemSets = { { "other",{ nx } } };
  if (have) p.elemSets.push_back({ "set",{ 1 } });
  size_t nset = p.elemSets.size();
  IntVec want;
  for (int e = 0; e < nx; e++) {
    if (uni == 1 && e+1 != nx) continue;
    bool in = true;
    for (int j = 0; j < 2 && in; j++) {
      double c = 0.0;
      for (int n : p.MNPC[e]) c += p.coord[n][j];
      c /= 4.0;
      in = c >= lo[j] && c <= hi[j];
    }
    if (in) want.push_back(1+e);
  }
  int set = p.parseElemBox("set",uni == 0 ? "" : (uni == 1 ? "other" : "nothing"),box);
  vc_eqi(set,want.empty() ? 0 : (have ? 2 : nset+1),"index of the element set");
  IntVec exp = have ? IntVec(1,1) : IntVec();
  for (int e : want) if (!have || e != 1) exp.push_back(e);
  if (set > 0) vc_true(sameSet(p.elemSets[set-1].second,exp) && p.elemSets[set-1].first == "set","the elements in the box are in the set");
}

CONTRACT(H_node_sets)
{
  bool zero = vc_bool("zero based"), again = vc_bool("two items"), external = vc_bool("external numbers");
  bool missing = vc_bool("missing node"), lines = vc_bool("lines");
  Patch1 p1('m');
  Patch2 p2('m');
  ASMbase* p = lines ? static_cast<ASMbase*>(&p1) : &p2;
  if (lines) fillGrid(p1,true,external); else fillGrid(p2,false,external);
  vc_eqi(p->parseNodeSet("a",external ? "12" : "1"),1,"index of the first set");
  const char* id = external ? (zero ? "13,4" : "14,5") : (zero ? "2,7" : "3,8"); // the third and last node
  vc_eqi(p->parseNodeSet("b",id,zero),2,"index of the set");
  if (again) vc_eqi(p->parseNodeSet("b",external ? (zero ? "10:12" : "11:13") : (zero ? "0:1" : "1:2"),zero),2,"index of the set");
  if (missing) vc_eqi(p->parseNodeSet("b","30"),2,"index of the set");
  ASMbase::resetNumbering();
  vc_true(lines ? p1.generateOrientedFEModel(Vec3()) : p2.generateFEMTopology(),"topology");
  p->convertNodeSets();
  IntVec want = { 3,8 };
  if (again && external) want.insert(want.end(),{ 2,1,4 });
  else if (again) want.insert(want.end(),{ 1,2 });
  vc_eqi(p->getNodeSetIdx("a"),1,"index of the first set");
  vc_eqi(p->getNodeSetIdx("b"),2,"index of the set");
  vc_eqi(p->getNodeSetIdx("c"),0,"there is no such set");
  vc_true(sameSet(p->getNodeSet(1),{ 1 }),"nodes of the first set");
  vc_true(sameSet(p->getNodeSet(2),want),"nodes of the set");
  vc_true(p->getNodeSet(0).empty() && p->getNodeSet(3).empty(),"there is no such set");
  for (int i = 1; i <= 8; i++) {
    bool in = std::find(want.begin(),want.end(),i) != want.end();
    vc_eqi(p->isInNodeSet(2,i),in,"node in the set");
    vc_eqi(p->isInNodeSet(2,-p->MLGN[i-1]),in,"node in the set by its global number");
    vc_true(!p->isInNodeSet(0,i) && !p->isInNodeSet(3,i),"there is no such set");
  }
  IntVec loc, glb, gwant;
  p->getBoundaryNodes(2,loc,0,1,0,true);
  p->getBoundaryNodes(2,glb,0,1,0,false);
  for (int n : want) gwant.push_back(p->MLGN[n-1]);
  vc_true(sameSet(loc,want),"local numbers of the nodes in the set");
  vc_true(sameSet(glb,gwant),"global numbers of the nodes in the set");
  int idx = 0;
  vc_true(&p->getNodeSet("b",idx) == &p->getNodeSet(2) && idx == 2,"the set can be updated");
  p->getNodeSet("c",idx) = { 4 };
  vc_true(idx == 3 && sameSet(p->getNodeSet(3),{ 4 }),"a new set can be made");
  if (!lines) {
    std::string name;
    vc_true(!p2.getNodeSet(0,name) && !p2.getNodeSet(4,name) && name.empty(),"there is no such set");
    vc_true(p2.getNodeSet(2,name) && name == "b","name of the set");
    vc_true(p2.addToNodeSet("b",external ? 7 : 6,true) >= 0,"a node is added");
    vc_true(p2.addToNodeSet("b",7) >= 0,"a node is added");
    vc_true(p2.addToNodeSet("b",9) < 0 && p2.addToNodeSet("b",99,true) < 0,"there is no such node");
    want.insert(want.end(),{ 6,7 });
    vc_true(sameSet(p->getNodeSet(2),want),"nodes of the set");
    vc_true(p2.addToElemSet("e",external ? 7 : 3,true) >= 0 && p2.addToElemSet("e",1) >= 0,"an element is added");
    vc_true(p2.addToElemSet("e",4) < 0 && p2.addToElemSet("e",99,true) < 0,"there is no such element");
    vc_true(sameSet(p2.getElementSet(1),{ 3,1 }),"elements of the set");
  }
}

CONTRACT(H_tesselation)
{
  bool lines = vc_bool("lines"), swap = vc_bool("swap"), external = vc_bool("external numbers");
  ElementBlock g(lines ? 2 : 4);
  std::vector<Vec3> xyz;
  std::vector<std::pair<int,IntVec>> want;
  if (lines) {
    Patch1 p('m');
    fillGrid(p,true,external);
    ASMbase::resetNumbering();
    p.generateOrientedFEModel(Vec3());
    vc_true(p.tesselate(g,nullptr),"grid");
    xyz = p.coord;
    for (int i = 0; i < 3; i++) want.push_back({ p.MLGE[i],p.MNPC[i] });
  }
  else {
    Patch2 p('m');
    fillGrid(p,false,external);
    p.swapNode34 = swap;
    int extra = vc_pick("extra",0,4);
    if (extra & 1) { p.myMNPC.insert(p.myMNPC.begin()+1,{ 5 }); if (external) p.myMLGE.insert(p.myMLGE.begin()+1,2); }
    if (extra & 2) { p.myMNPC.push_back({ 0,1,7 }); if (external) p.myMLGE.push_back(3); }
    for (int i = 0; i < 3 && extra == 4; i++) { // as many lines as quadrilaterals
      p.myMNPC.push_back({ 4+i,7-i });
      if (external) p.myMLGE.push_back(20+i);
    }
    ASMbase::resetNumbering();
    p.generateFEMTopology();
    if (vc_bool("collapsed")) p.myMLGE[2] = 0;
    vc_true(p.tesselate(g,nullptr),"grid");
    xyz = p.coord;
    for (size_t i = 0; i < p.MNPC.size(); i++)
      if (p.MNPC[i].size() > 1 && p.MLGE[i] > 0) {
        IntVec n = p.MNPC[i];
        if (swap && n.size() == 4) std::swap(n[2],n[3]);
        want.push_back({ p.MLGE[i],n });
      }
  }
  vc_eqi(g.getNoNodes(),xyz.size(),"number of nodes");
  for (size_t i = 0; i < xyz.size(); i++) for (int j = 0; j < 3; j++) vc_eq(g.getCoord(i)[j],xyz[i][j],"coordinate of a node");
  vc_eqi(g.getNoElms(),want.size(),"number of elements");
  bool same = true;
  for (auto& e : want) if (e.second.size() != want.front().second.size()) same = false;
  vc_eqi(g.getNoElmNodes(),same ? want.front().second.size() : 0,"number of element nodes");
  for (size_t e = 0, k = 0; e < want.size(); e++) {
    if (e > 0 && g.getNoElmNodes() == 0) vc_eqi(k < g.MMNPC.size() ? g.MMNPC[k++] : 0,-1,"end of the previous element");
    for (int n : want[e].second) vc_eqi(k < g.MMNPC.size() ? g.MMNPC[k++] : -1,n,"node of an element");
    vc_eqi(g.getElmId(e+1),want[e].first,"number of an element");
  }
}

// The elements of one colour can be assembled at the same time
CONTRACT(H_coloring)
{
  Patch2 p('m');
  const int nn = 6;
  int grid = vc_pick("grid",0,3), couple = vc_pick("couplings",0,5), mass = vc_pick("point masses",0,2);
  bool separate = vc_bool("separate");
  static const IntMat grids[] = { { { 0,1,3,4 },{ 1,2,4,5 } }, { { 0,1 },{ 1,2 },{ 2,3 },{ 3,4 },{ 4,5 } }, { { 0,1 },{ 2,3 },{ 4,5 } }, { { 0,1,2 },{ 3,4,5 },{ 2,3 } } };
  p.myMNPC = grids[grid];
  for (int i = 0; i < mass; i++) p.myMNPC.insert(p.myMNPC.begin()+i,IntVec(1,i == 0 ? 2 : 5));
  for (int i = 0; i < nn; i++) { p.myCoord.push_back(Vec3(i,0,0)); p.myMLGN.push_back(20-i); }
  for (size_t i = 0; i < p.myMNPC.size(); i++) p.myMLGE.push_back(1+i);
  ASMbase::resetNumbering();
  vc_true(p.generateFEMTopology(),"topology");
  // couplings between nodes: slave and its masters
  static const IntMat cpl[] = { {}, { { 0,5 } }, { { 5,0,3 } }, { { 0,2 },{ 5,2 } }, { { 0,2,3 },{ 5,3 } }, { { 1,4 },{ 0,3,4 },{ 2,5 } } };
  for (const IntVec& c : cpl[couple]) {
    MPC* m = new MPC(20-c[0],1);
    for (size_t i = 1; i < c.size(); i++) m->addMaster(20-c[i],1);
    p.mpcs.insert(m);
  }
  p.generateThreadGroupsMultiColored(true,separate);
  // the nodes each element contributes to
  auto targets = [&](int e) {
    std::set<int> t;
    for (int n : p.MNPC[e]) {
      t.insert(n);
      for (const IntVec& c : cpl[couple]) if (c[0] == n) t.insert(c.begin()+1,c.end());
    }
    return t;
  };
  const int ne = p.MNPC.size();
  IntVec seen(ne,0);
  const ThreadGroups& g = p.threadGroups;
  for (size_t k = 0; k < g[0].size(); k++) {
    const IntVec& col = g[0][k];
    vc_true(!col.empty(),"no empty colour");
    for (size_t i = 0; i < col.size(); i++) {
      vc_true(col[i] >= 0 && col[i] < ne,"element index");
      seen[col[i]]++;
      std::set<int> a = targets(col[i]);
      for (size_t j = 0; j < i; j++)
        for (int n : targets(col[j])) vc_true(a.find(n) == a.end(),"elements of one colour do not contribute to the same node");
    }
  }
  for (int e = 0; e < ne; e++) vc_eqi(seen[e],1,"each element has one colour");
  vc_true(g[1].empty(),"no second set of groups");
}


CONTRACT(H_nodal_field)
{
  int nc = vc_pick("components",1,3), extra = vc_pick("extra nodes",-1,2), wrong = vc_pick("wrong size",0,1);
  Patch2 p('m');
  fillGrid(p,false,false);
  int nno = 8+extra;
  Vector sol(nno*nc+wrong*(nno > 1));
  vc_fill(sol.ptr(),sol.size(),"u");
  Matrix f;
  bool ok = p.nodalField(f,sol,nno);
  vc_eqi(ok,extra >= 0 && !wrong,"size of the solution");
  if (ok) {
    vc_eqi(f.rows(),nc,"number of components");
    vc_eqi(f.cols(),8,"number of nodes");
    for (int i = 0; i < 8; i++) for (int c = 0; c < nc; c++) vc_eq(f(c+1,i+1),sol[i*nc+c],"nodal value");
  }
  Vec3 c = p.getGeometricCenter(p.MNPC[1]);
  for (int j = 0; j < 3; j++) vc_eq(c[j],(p.coord[1][j]+p.coord[2][j]+p.coord[5][j]+p.coord[6][j])/4.0,"centre of an element");
  std::vector<Vec3> old = p.coord;
  Vec3 org(vc_real("X"),vc_real("Y"),vc_real("Z"));
  p.updateOrigin(org);
  Vector d(16+wrong);
  vc_fill(d.ptr(),d.size(),"d");
  vc_eqi(static_cast<ASMLagBase&>(p).updateCoords(d,2),!wrong,"size of the displacements");
  for (int i = 0; i < 8; i++) for (int j = 0; j < 3; j++)
    vc_eq(p.coord[i][j],old[i][j]+org[j]+(j < 2 && !wrong ? d[2*i+j] : 0.0),"coordinate");
}
