// A patch with explicitly given nodes and elements: the base class is the repository's, only what is pure virtual is added
#include "ASMbase.h"
#include "Vec3.h"
#include "MatVec.h"

class TestPatch : public ASMbase
{
public:
  TestPatch(unsigned char nfields, const IntVec& nodes, const IntMat& elms = IntMat(), int firstElm = 1) : ASMbase(1,1,nfields)
  {
    myMLGN = nodes;
    myMNPC = elms;
    for (size_t i = 0; i < elms.size(); i++) myMLGE.push_back(firstElm+i);
    nel = elms.size();
    nnod = nodes.size();
  }
  virtual ~TestPatch() {}
  bool empty() const override { return MLGN.empty(); }
  bool read(std::istream&) override { return false; }
  bool write(std::ostream&, int) const override { return false; }
  bool generateFEMTopology() override { return true; }
  Vec3 getCoord(size_t n) const override { return Vec3(n,0,0); }
  void getNodalCoordinates(Matrix&, bool) const override {}
  bool getElementCoordinates(Matrix&, int, bool) const override { return false; }
  Vec3 getElementCenter(int) const override { return Vec3(); }
  void getBoundaryNodes(int, IntVec&, int, int, int, bool) const override {}
  bool updateCoords(const Vector&) override { return false; }
  int evalPoint(const double*, double*, Vec3&) const override { return -1; }
  int findElementContaining(const double*) const override { return -1; }
  double findPoint(Vec3&, double*) const override { return -1.0; }
  bool tesselate(ElementBlock&, const int*) const override { return false; }
  bool getParameterDomain(Real2DMat&, IntVec*) const override { return false; }
  void getElmConnectivities(IntMat&, int) const override {}
  bool integrate(Integrand&, GlobalIntegral&, const TimeDomain&) override { return false; }
  bool integrate(Integrand&, int, GlobalIntegral&, const TimeDomain&) override { return false; }
  void findBoundaryElms(IntVec&, int, int) const override {}
};
