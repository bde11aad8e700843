// VC-TU: src/SIM/TimeStep.C src/Utility/DataExporter.C src/Utility/HDF5Restart.C src/Utility/HDF5Base.C src/SIM/SIMadmin.C src/SIM/SIMoptions.C src/LinAlg/ProcessAdm.C src/LinAlg/LinAlgInit.C src/ASM/DomainDecomposition.C src/Utility/LogStream.C src/LinAlg/MatVec.C src/Utility/Utilities.C
// VC-FLAGS: -UHAS_HDF5
// VC-TIME: 150
// VC-ASSUME: the simulators driven by the time stepping and coupling templates are replaced by ones with arbitrary results that record what is asked of them; files are not written
#include "vc.h"
#include "MatVec.h"
#include "Utilities.h"
#include "SIMenums.h"
#include "IFEM.h"
#include "SIMoptions.h"
#include "DataExporter.h"
#include "HDF5Writer.h"
#include "Profiler.h"
#include "TimeStep.h"
#include "SIMSolver.h"
#include "SIMSolverTS.h"
#include "Property.h"
#include "Functions.h"
#include "Function.h"
#include "SIMCoupled.h"
#include "SIMCoupledSI.h"
#include <iostream>
#include <memory>
#include <cmath>

SIMoptions IFEM::cmdOptions;
utl::LogStream IFEM::cout(std::cout);
std::shared_ptr<std::ostringstream> IFEM::memoryLog;
void IFEM::registerCallback(ControlCallback&) {}
bool IFEM::pollControllerFifo() { return true; }
Profiler::Profiler(const std::string&, bool) {}
Profiler::~Profiler() {}
void Profiler::start(const std::string&) {}
void Profiler::stop(const std::string&) {}
static Profiler theProfiler("vc",false);
Profiler* utl::profiler = &theProfiler;
namespace utl { ScalarFunc* parseTimeFunc(const char*, const std::string&, Real) { return nullptr; } }

namespace {

struct Event
{
  char what;
  int step;
  double t;
  bool geo;
};

struct Log
{
  std::vector<Event> ev;
  int failAt = -1;
  bool add(char w, const TimeStep* tp = nullptr, bool geo = false)
  {
    ev.push_back({w, tp ? tp->step : -1, tp ? tp->time.t : 0.0, geo});
    return (int)ev.size()-1 != failAt;
  }
};

struct NoStream
{
  template<class T> NoStream& operator<<(const T&) { return *this; }
  NoStream& operator<<(std::ostream& (*)(std::ostream&)) { return *this; }
};

//! Records the calls, and keeps track of the state the simulator is in
struct Sim
{
  struct Adm { mutable NoStream cout; DomainDecomposition dd; } adm;
  Log& log;
  double t0 = 0.0, dt = 0.0;   // if dt > 0, the time of step k is t0+k*dt
  int blocks = 0;
  // ghost state: the step of the solution, the mesh in use, the state last stored, the mesh last written
  int step = 0, mesh = 0, savedStep = -1, savedMesh = -1, shownMesh = -1, lastShown = -1;
  bool solved = true, staggering = true;
  std::vector<int> refine;      // what the calls of adaptMesh return
  size_t nAdapt = 0;
  bool slabs = false;

  explicit Sim(Log& l) : log(l) {}
  const Adm& getProcessAdm() const { return adm; }
  bool saveModel(char*, int& geo, int&) { ++geo; shownMesh = mesh; return log.add('M'); }
  bool advanceStep(TimeStep& tp)
  {
    vc_true(solved && tp.step == step+1,"the step follows the one the solution is for");
    step = tp.step;
    solved = false;
    return log.add('a',&tp);
  }
  bool solveStep(TimeStep& tp)
  {
    vc_eqi(tp.step,step,"the step solved is the one advanced to");
    if (dt > 0.0) vc_near(tp.time.t,t0+dt*tp.step,1e-6,"the time of the step");
    solved = true;
    return log.add('s',&tp);
  }
  bool saveStep(const TimeStep& tp, int& nb)
  {
    vc_eqi(tp.step,step,"the results saved are those of the step");
    vc_eqi(shownMesh,mesh,"the mesh is written before results on it");
    vc_true(tp.step > lastShown,"results are saved in the order of the steps, and once only");
    lastShown = tp.step;
    vc_eqi(nb,blocks++,"the block counter is kept");
    ++nb;
    return log.add('S',&tp);
  }
  bool serialize(std::map<std::string,std::string>& d) { d["sim"] = "x"; return log.add('z'); }
  bool deSerialize(const std::map<std::string,std::string>& d) { return d.find("sim") != d.end(); }
  void registerFields(DataExporter&) {}
  std::string getName() const { return "Sim"; }
  int getRefined() const { return mesh; }
  // time-slab adaptive simulation
  bool preRefine(int,int,double) { return log.add('p'); }
  bool initialRefine(double,double,int) { return log.add('i'); }
  void parsePreref(const tinyxml2::XMLElement*) {}
  void enableStaggering(bool on) { staggering = on; }
  void saveState() { vc_true(solved,"a finished state is stored"); savedStep = step; savedMesh = mesh; log.add('k'); }
  void restoreState() { vc_eqi(savedMesh,mesh,"the restored state is on the mesh in use"); step = savedStep; solved = true; log.add('r'); }
  bool stopped() const { return false; }
  int adaptMesh(double,double,int)
  {
    int n = nAdapt < refine.size() ? refine[nAdapt] : 0;
    ++nAdapt;
    log.add('A');
    if (n > 0) { ++mesh; step = savedStep; } // the stored state is transferred to the new mesh
    return n;
  }
  bool dumpMesh(const char*) { return log.add('D'); }
};

//! Records what is written
class Writer : public DataWriter
{
public:
  Log& log;
  const TimeStep* tp = nullptr;
  int last = -1, open = -1;
  std::vector<int> levels, geo;
  std::vector<double> times, infos;
  std::vector<std::string> fields;
  Writer(Log& l, const ProcessAdm& adm) : DataWriter("w",adm), log(l) {}
  int getLastTimeLevel() override { return last; }
  void openFile(int level) override { vc_eqi(open,-1,"files are closed before they are opened"); open = level; levels.push_back(level); fields.push_back(""); }
  void closeFile(int level) override { vc_eqi(open,level,"the file opened is closed"); open = -1; }
  void put(const char* what, int level, const DataEntry& e) { vc_eqi(level,open,"all goes to the level opened"); fields.back() += what + e.first + ";"; }
  void writeVector(int l, const DataEntry& e) override { put("v",l,e); }
  void writeSIM(int l, double t, const DataEntry& e, bool g, const std::string& pre) override
  {
    put("s",l,e);
    times.push_back(t); geo.push_back(g);
    vc_true(pre == e.second.prefix,"prefix");
  }
  void writeNodalForces(int l, const DataEntry& e) override { put("n",l,e); }
  void writeKnotspan(int l, const DataEntry& e, const std::string&) override { put("k",l,e); }
  void writeBasis(int l, const DataEntry& e, const std::string&) override { put("b",l,e); }
  bool writeTimeInfo(int l, double t) override { vc_eqi(l,open,"time info goes to the level opened"); infos.push_back(t); return true; }
  bool writeLog(const std::string&, const std::string&) override { return true; }
};

}

//! One stationary solution, saved once; the first failure decides the return code and nothing happens after it
CONTRACT(H_stationary)
{
  Log log; Sim sim(log);
  log.failAt = vc_pick("failure",-1,2);
  int geo = 0;
  SIMSolverStat<Sim> drv(sim);
  int ret = drv.solveProblem(nullptr);
  static const char order[4] = "MsS";
  static const int code[3] = { 1, 2, 4 };
  sim.step = 0;
  vc_eqi(ret,log.failAt < 0 ? 0 : code[log.failAt],"return code");
  vc_eqi(log.ev.size(),log.failAt < 0 ? 3 : log.failAt+1,"nothing happens after a failure");
  for (size_t i = 0; i < log.ev.size() && i < 3; i++)
    vc_eqi(log.ev[i].what,order[i],"save the model, solve, save the results");
  (void)geo;
}

//! All steps are advanced to, solved and saved, each once and in order
CONTRACT(H_transient)
{
  Log log; Sim sim(log);
  int nSteps = vc_pick("steps",1,3);
  double t0 = vc_pick("start",0,1);
  sim.t0 = t0; sim.dt = 0.5;
  SIMSolver<Sim> drv(sim);
  drv.tp.starTime = drv.tp.time.t = t0;
  drv.tp.time.dt = 0.5;
  drv.tp.stopTime = t0 + 0.5*nSteps;
  bool multi = nSteps > 1;
  int nEv = 1 + multi + 3*nSteps;
  log.failAt = vc_pick("failure",-1,11);
  if (log.failAt >= nEv) return;
  drv.saveDivergedSol = vc_pick("save-diverged",0,1);
  int ret = drv.solveProblem(nullptr);
  std::string want = multi ? "MS" : "M";
  for (int i = 0; i < nSteps; i++) want += "asS";
  if (log.failAt < 0) {
    vc_eqi(ret,0,"return code");
    vc_true(drv.tp.finished(),"the end is reached");
  }
  else {
    char f = want[log.failAt];
    want.resize(log.failAt+1);
    if (f == 's' && drv.saveDivergedSol) want += 'S';
    vc_eqi(ret,log.failAt < 1+multi ? 2 : f == 'a' ? 0 : f == 's' ? 3 : 4,"return code");
  }
  vc_eqi(log.ev.size(),want.size(),"number of calls");
  for (size_t i = 0; i < log.ev.size() && i < want.size(); i++) {
    vc_eqi(log.ev[i].what,want[i],"order of the calls");
    if (i > 1) vc_eqi(log.ev[i].step,1+(int(i)-1-multi)/3,"the step of each call");
  }
}

//! Results are exported for every n-th step, to consecutive time levels, with the mesh whenever it has changed
CONTRACT(H_exporter)
{
  Log log;
  ProcessAdm adm;
  Writer w(log,adm);
  int stride = vc_pick("stride",1,3), level0 = vc_pick("level",0,1), nSteps = 6, first = vc_pick("first-step",0,1);
  int newMesh = vc_pick("new-mesh",0,6);
  DataExporter ex(false,stride,level0);
  ex.registerWriter(&w);
  int dummy[6];
  static const DataExporter::FieldType ft[6] = { DataExporter::VECTOR, DataExporter::INTVECTOR, DataExporter::SIM, DataExporter::NODALFORCES, DataExporter::KNOTSPAN, DataExporter::BASIS };
  static const char* nm[6] = { "a", "b", "c", "d", "e", "f" };
  for (int i = 0; i < 6; i++) {
    vc_true(ex.registerField(nm[i],"field",ft[i],DataExporter::PRIMARY,i == 2 ? "pre" : ""),"registered");
    vc_true(!ex.registerField(nm[i],"field",ft[i]),"registered once only");
    vc_true(ex.setFieldValue(nm[i],dummy+i),"value set");
  }
  vc_true(!ex.setFieldValue("none",dummy),"no such field");
  TimeStep tp;
  tp.stopTime = 6.0;
  std::vector<int> steps;
  std::vector<bool> geos;
  int lastDump = -1;
  bool pending = true;
  for (int s = first; s <= nSteps; s++) {
    tp.step = s;
    tp.time.t = s;
    if (s == newMesh) pending = true;
    if (s == 0 || s >= (lastDump < 0 ? 0 : lastDump) + stride) {
      steps.push_back(s);
      geos.push_back(pending);
      pending = false;
      lastDump = s;
    }
    vc_true(ex.dumpTimeLevel(&tp,s == newMesh),"dumped");
  }
  vc_eqi(w.levels.size(),steps.size(),"every n-th step is exported");
  if (w.levels.size() != steps.size() || w.times.size() != steps.size() || w.infos.size() != steps.size()) { vc_true(false,"one set of results for each level"); return; }
  for (size_t i = 0; i < steps.size(); i++) {
    vc_eqi(w.levels[i],level0+i,"consecutive time levels");
    vc_eq(w.times[i],steps[i],"the time of the step exported");
    vc_eq(w.infos[i],steps[i],"the time of the level");
    vc_true(w.geo[i] == geos[i],"the mesh is exported with the first results on it");
    vc_true(w.fields[i] == "va;vb;sc;nd;ke;bf;","every registered field is exported, in its way");
  }
  vc_eqi(ex.getTimeLevel(),level0+steps.size()-1,"current time level");
  vc_eqi(w.open,-1,"the file is closed");
}

//! A field without data is not exported
CONTRACT(H_exporter_no_data)
{
  Log log;
  ProcessAdm adm;
  Writer w(log,adm);
  DataExporter ex;
  ex.registerWriter(&w);
  vc_true(ex.registerField("a","field",DataExporter::SIM),"registered");
  TimeStep tp;
  vc_true(!ex.dumpTimeLevel(&tp),"no data for the field");
}

//! Without time steps, new results are appended after those on the file
CONTRACT(H_exporter_stationary)
{
  Log log;
  ProcessAdm adm;
  Writer w(log,adm);
  int n = w.last = vc_pick("last",-1,2);
  DataExporter ex;
  ex.registerWriter(&w);
  int x = 0;
  ex.registerField("a","field",DataExporter::SIM);
  ex.setFieldValue("a",&x);
  for (int i = 0; i < 3; i++) vc_true(ex.dumpTimeLevel(),"dumped");
  vc_eqi(w.levels.size(),3,"each call makes a level");
  for (size_t i = 0; i < w.levels.size(); i++) {
    vc_eqi(w.levels[i],n+1+(int)i,"levels follow those on the file");
    vc_true(w.geo[i] == (i == 0 || (n < 0 && false)),"the mesh is exported once");
  }
  vc_eqi(w.infos.size(),0,"no time information");
}

//! The state for restarts is saved at every n-th step
CONTRACT(H_restart_output)
{
  Log log; Sim sim(log);
  ProcessAdm adm;
  int nSteps = vc_pick("steps",2,5), stride = vc_pick("stride",1,3);
  SIMSolver<Sim> drv(sim);
  drv.tp.time.dt = 0.5;
  drv.tp.stopTime = 0.5*nSteps;
  drv.restartAdm = new HDF5Restart("x",adm,stride);
  vc_eqi(drv.solveProblem(nullptr),0,"return code");
  std::string want = "MS", got;
  for (int i = 1; i <= nSteps; i++) want += i%stride == 0 ? "asSz" : "asS";
  for (const Event& e : log.ev) got += e.what;
  vc_true(got == want,"the state is serialized after every n-th step has been saved");
  // the serialized data restores time and step
  std::map<std::string,std::string> data;
  vc_true(drv.serialize(data),"serialized");
  vc_true(data.find("sim") != data.end(),"the simulator is serialized too");
}

//! Time-slab adaptivity: every solution is obtained by stepping on from a stored state on the mesh in use
CONTRACT(H_time_slab)
{
  Log log; Sim sim(log);
  int nSteps = vc_pick("steps",2,5), table = vc_pick("step-table",0,1);
  sim.dt = 0.5;
  SIMSolverTS<Sim> drv(sim);
  drv.nForward = vc_pick("forward",1,2);
  drv.nPredict = vc_pick("predict",1,2);
  drv.maxPred = vc_pick("cycles",-1,2);
  if (drv.maxPred == 0) return;
  drv.preRef = vc_pick("pre-refined",0,table);
  drv.aStart = vc_pick("start",0,1) ? 0.5 : -1.0;
  int pattern = vc_pick("refine",0,vc_thorough() ? 7 : 3);
  sim.refine = { pattern & 1, pattern & 2 ? 1 : 0, pattern & 4 ? 1 : 0 };
  drv.tp.time.dt = 0.5;
  drv.tp.stopTime = 0.5*nSteps;
  if (table) {
    drv.tp.mySteps.push_back(std::make_pair(std::vector<double>(1,0.5),drv.tp.stopTime));
    drv.tp.reset();
  }
  char file[8] = "a.xinp";
  if (drv.preRef > 0) sim.lastShown = 0;
  vc_eqi(drv.solveProblem(file,nullptr),0,"return code");
  vc_true(drv.tp.finished(),"the end is reached");
  vc_eqi(sim.lastShown,nSteps,"the results at the end are saved");
  vc_eqi(sim.step,nSteps,"the last step is the final one");
  vc_near(drv.tp.time.t,0.5*nSteps,1e-9,"the final time");
  vc_eqi(log.ev[drv.maxRef > drv.preRef ? 0 : 0].what,'i',"initial refinement comes first");
}

namespace {

//! One of two coupled simulators
struct Part
{
  struct Adm { mutable NoStream cout; } adm;
  std::string& log;
  char name;
  int failAt = -1, calls = 0;
  VTF* vtf = nullptr;
  std::vector<SIM::ConvStatus> status;
  size_t it = 0;
  Part(std::string& l, char n) : log(l), name(n) {}
  bool call(char c) { log += name; log += c; return calls++ != failAt; }
  const Adm& getProcessAdm() const { return adm; }
  bool preprocess() { return call('p'); }
  bool init(const TimeStep&) { return call('i'); }
  bool advanceStep(TimeStep&) { return call('a'); }
  bool solveStep(TimeStep&) { return call('s'); }
  bool saveStep(const TimeStep&, int&) { return call('S'); }
  bool saveModel(char*, int&, int&) { return call('M'); }
  bool setInitialConditions() { return call('c'); }
  bool serialize(std::map<std::string,std::string>&) { return call('z'); }
  bool deSerialize(const std::map<std::string,std::string>&) { return call('Z'); }
  bool hasIC(const std::string&) const { return const_cast<Part*>(this)->call('h'); }
  void registerFields(DataExporter&) { call('r'); }
  std::string getName() const { return std::string(1,name); }
  VTF* getVTF() const { return vtf; }
  void setVTF(VTF* v) { vtf = v; }
  SIM::ConvStatus solveIteration(TimeStep& tp)
  {
    call('t');
    vc_eqi(tp.iter,(int)it,"iteration number");
    return it < status.size() ? status[it++] : SIM::CONVERGED;
  }
  void postSolve(TimeStep&) { call('P'); }
  template<class... A> void registerDependency(SIMdependency*, const std::string& f, short int, const A&...) { call('d'); vc_true(f == "f","field name"); }
};

}

//! Both simulators are asked, in the right order, and the second one only if the first one succeeds
CONTRACT(H_coupled)
{
  std::string log;
  Part a(log,'1'), b(log,'2');
  VTF* vtf = reinterpret_cast<VTF*>(&a);
  a.vtf = vtf;
  int op = vc_pick("operation",0,9);
  a.failAt = vc_pick("first-fails",0,1) - 1;
  b.failAt = vc_pick("second-fails",0,1) - 1;
  bool aOk = a.failAt < 0, bOk = b.failAt < 0;
  {
    SIMCoupled<Part,Part> c(a,b);
    TimeStep tp;
    int g = 0, n = 0;
    std::map<std::string,std::string> data;
    DataExporter ex;
    bool ok = false, rev = false;
    char k = ' ';
    switch (op) {
    case 0: ok = c.preprocess(); k = 'p'; break;
    case 1: ok = c.init(tp); k = 'i'; break;
    case 2: ok = c.advanceStep(tp); k = 'a'; break;
    case 3: ok = c.solveStep(tp); k = 's'; break;
    case 4: ok = c.solveStep(tp,false); k = 's'; rev = true; break;
    case 5: ok = c.saveStep(tp,n); k = 'S'; rev = true; break;
    case 6: ok = c.setInitialConditions(); k = 'c'; break;
    case 7: ok = c.serialize(data); k = 'z'; break;
    case 8: ok = c.deSerialize(data); k = 'Z'; break;
    case 9:
      ok = c.saveModel(nullptr,g,n);
      vc_true(ok == aOk,"the first simulator saves the model");
      vc_true(log == "1M","the model is saved once");
      vc_true(b.vtf == (aOk ? vtf : nullptr),"both simulators use the same file");
      vc_true(c.getVTF() == vtf,"the file");
      vc_true(c.getName() == "1" && c.getName(2) == "2" && c.getName(3) == "SIMCoupled<1,2>","names");
      break;
    }
    if (op < 9) {
      vc_true(ok == (aOk && bOk),"success if both succeed");
      std::string want;
      want += rev ? '2' : '1'; want += k;
      if (rev ? bOk : aOk) { want += rev ? '1' : '2'; want += k; }
      vc_true(log == want,"the calls");
    }
  }
  vc_true(b.vtf == nullptr,"the file is not left to the second simulator");
}

namespace {
class Staggered : public SIMCoupledSI<Part,Part>
{
public:
  size_t n;
  bool relax = false;
  mutable Vector res, vec;
  mutable Vectors resAt, vecAt;
  Vectors relaxed, given;
  Staggered(Part& a, Part& b, size_t m) : SIMCoupledSI<Part,Part>(a,b), n(m) {}
  bool fresh = true;
  const Vector& getAitkenResidual() const override { return res; }
  const Vector& getRelaxationVector() const override { return vec; }
  void setRelaxedSolution(const Vector& v) override { relaxed.push_back(v); }
  SIM::ConvStatus checkConvergence(const TimeStep& tp, SIM::ConvStatus s1, SIM::ConvStatus s2) override
  {
    if (relax) { // new results of this iteration
      if (resAt.size() < given.size()) res = given[resAt.size()];
      resAt.push_back(res);
      vec.resize(n); vc_fill(vec.ptr(),n,"vec"); vecAt.push_back(vec);
    }
    return this->SIMCoupledSI<Part,Part>::checkConvergence(tp,s1,s2);
  }
};
}

//! Staggering goes on until both simulators converge in the same iteration, one diverges, or the limit is reached
CONTRACT(H_staggered)
{
  std::string log;
  Part a(log,'1'), b(log,'2');
  static const SIM::ConvStatus st[4] = { SIM::CONVERGED, SIM::OK, SIM::DIVERGED, SIM::FAILURE };
  int maxIt = vc_pick("limit",0,2), off = vc_pick("staggering-off",0,1);
  bool firstS1 = vc_pick("first-first",0,1);
  std::vector<int> sa(3), sb(3);
  for (int i = 0; i < 3; i++) {
    a.status.push_back(st[sa[i] = vc_pick("status1",0,i < 2 ? 3 : 1)]);
    b.status.push_back(st[sb[i] = vc_pick("status2",0,i < 2 ? 3 : 1)]);
    if (sa[i] != 1 && sb[i] != 1) break; // what follows does not matter
  }
  Staggered c(a,b,1);
  c.maxIter = maxIt;
  if (off) c.enableStaggering(false);
  int limit = off ? 0 : maxIt;
  TimeStep tp;
  tp.time.first = true;
  bool ok = c.solveStep(tp,firstS1);
  // the expected calls
  std::string want;
  bool good = true;
  for (int i = 0; i <= limit && good; i++) {
    int f = i < (int)a.status.size() ? (firstS1 ? sa[i] : sb[i]) : 0, s = i < (int)a.status.size() ? (firstS1 ? sb[i] : sa[i]) : 0;
    want += firstS1 ? "1t" : "2t";
    if (f > 1) good = false;
    if (!good) break;
    want += firstS1 ? "2t" : "1t";
    if (s > 1) good = false;
    if (f == 0 && s == 0) break;
  }
  if (good) want += "1P2P";
  vc_true(ok == good,"failure if one of them fails");
  vc_true(log == want,"the calls");
  if (ok) vc_true(!tp.time.first,"no longer the first step");
}

//! Relaxation mixes the previous and the new values; Aitken's method adapts the weight to the change in the residual
CONTRACT(H_relaxation)
{
  std::string log;
  Part a(log,'1'), b(log,'2');
  size_t n = vc_pick("size",1,2);
  bool aitken = vc_pick("aitken",0,1);
  int nIt = 3;
  Staggered c(a,b,n);
  c.relax = true;
  c.maxIter = nIt;
  double w = c.omega = c.omega0 = vc_real_range("omega",0.1,1.9);
  c.aitken = aitken;
  a.status = { SIM::OK, SIM::OK, SIM::CONVERGED };
  b.status = { SIM::OK, SIM::OK, SIM::CONVERGED };
  static const double val[4] = { 2.0, -0.5, 0.75, 0.0 };
  if (aitken) {
    int k0 = vc_pick("res0",0,3), k1 = vc_pick("res1",0,3), k2 = vc_pick("res2",0,3);
    if (k0 == k1 || k1 == k2) return;
    for (int k : { k0, k1, k2 }) {
      Vector r(n);
      r[0] = val[k];
      if (n > 1) r[1] = 1.0 - 2.0*val[k]*val[k];
      c.given.push_back(r);
    }
  }
  TimeStep tp;
  vc_true(c.solveStep(tp),"solved");
  if (c.relaxed.size() != 2 || c.vecAt.size() != 3) { vc_true(false,"relaxed in each iteration but the first"); return; }
  std::vector<double> u(c.vecAt[0].begin(),c.vecAt[0].end());
  for (int i = 1; i < nIt; i++) {
    if (aitken) {
      double rd = 0.0, dd = 0.0;
      for (size_t d = 0; d < n; d++) {
        double dr = c.resAt[i][d] - c.resAt[i-1][d];
        rd += c.resAt[i-1][d]*dr;
        dd += dr*dr;
      }
      double x = -w*rd/dd;
      if (x < 1e-6 && x > -1e-6) x = c.omega0;
      w = x;
    }
    vc_eqi(c.relaxed[i-1].size(),n,"size of the relaxed solution");
    for (size_t d = 0; d < n; d++) {
      u[d] = (1.0-w)*u[d] + w*c.vecAt[i][d];
      vc_eq(c.relaxed[i-1][d],u[d],"relaxed solution");
    }
  }
}
