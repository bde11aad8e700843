// VC-TU: src/SIM/TimeStep.C src/Utility/LogStream.C
// VC-TIME: 250
#include "vc.h"
#include "TimeStep.h"
#include "IFEM.h"
#include <iostream>
#include <algorithm>

utl::LogStream IFEM::cout(std::cout);

// An arbitrary time stepping state before an increment, with a schedule of ns stages of which the ic'th is current
static void arbState(TimeStep& tp, int ns)
{
  tp.starTime = vc_real_range("start",0.0,1.0e3);
  tp.time.t  = vc_real("t");
  tp.time.dt = vc_real("dt");
  tp.time.dtn = vc_real("dtn");
  vc_assume(tp.time.t >= tp.starTime && tp.time.dt > 1.0e-5);
  tp.step = vc_int("step",0,1000);
  tp.iter = vc_int("iter",0,100);
  tp.niter = vc_int("niter",0,100);
  tp.f1 = vc_real_range("f1",1.0,10.0);
  tp.f2 = vc_real_range("f2",0.01,1.0);
  tp.dtMin = vc_real("dtMin"); tp.dtMax = vc_real("dtMax");
  vc_assume(tp.dtMin > 1.0e-5 && tp.dtMax >= tp.dtMin);
  tp.maxCFL = 0.0;
  tp.nInitStep = 0;
  double end = tp.starTime;
  for (int i = 0; i < ns; i++) {
    double e = vc_real("end");
    vc_assume(e > end+1.0e-2);
    end = e;
    int n = vc_pick("nstep",1,2);
    std::vector<double> dts(n);
    for (double& d : dts) { d = vc_real("stagedt"); vc_assume(d > 1.0e-5); }
    tp.mySteps.push_back(std::make_pair(dts,end));
  }
  if (ns > 0)
    tp.stopTime = end;
  else
    tp.stopTime = vc_real("stop");
  vc_assume(tp.stopTime > tp.starTime+1.0e-2);
  tp.stepIt = tp.mySteps.begin();
  tp.lstep = 0;
}

CONTRACT(H_increment_without_schedule)
{
  TimeStep tp;
  arbState(tp,0);
  tp.maxStep = vc_int("maxStep",0,1000);
  double t0 = tp.time.t, d0 = tp.time.dt, stop = tp.stopTime;
  int s0 = tp.step, it = tp.iter, ni = tp.niter;
  vc_assume(t0 <= stop);
  bool adaptive = tp.dtMin < tp.dtMax && s0 > 1;
  bool reached = tp.hasReached(stop);
  bool ok = tp.increment();
  vc_eq(tp.time.dtn,d0,"the previous step size is remembered");
  vc_eq(tp.stopTime,stop,"the stop time is not changed");
  if (!ok) {
    vc_eq(tp.time.t,t0,"time stands still when no further step is taken");
    vc_true(stop-t0 <= 1.0e-6*std::max(1.0e-6,tp.time.dt) || (tp.maxStep > 0 && s0 == tp.maxStep),
            "refused only at the stop time or at the maximum number of steps");
    return;
  }
  vc_cover("step taken");
  double dt = tp.time.dt;
  vc_eqi(tp.step,s0+1,"the step counter is advanced by one");
  vc_true(dt > 0.0,"time moves forward");
  vc_eq(tp.time.t,t0+dt,"new time is the old one plus the step size");
  vc_le(tp.time.t,stop,"time never passes the stop time");
  double want = d0;
  if (adaptive) {
    if (it <= 4 && ni <= 4) want *= tp.f1;
    else if (it > 10) want *= tp.f2;
    want = std::min(std::max(want,tp.dtMin),tp.dtMax);
  }
  if (t0 + want <= stop)
    vc_eq(dt,want,"step size follows the iteration count within its limits");
  else {
    vc_eq(tp.time.t,stop,"the last step ends at the stop time");
    vc_true(tp.finished(),"stepping is finished at the stop time");
  }
  if (tp.time.t == stop)
    vc_true(!tp.increment(),"no step is taken after the stop time");
}

CONTRACT(H_increment_with_schedule)
{
  TimeStep tp;
  int ns = vc_pick("stages",1,2), ic = vc_pick("current",0,ns-1);
  arbState(tp,ns);
  tp.dtMin = tp.dtMax = 1.0e-3;   // no automatic step size
  tp.maxStep = 0;
  tp.stepIt = tp.mySteps.begin()+ic;
  tp.lstep = vc_pick("lstep",0,2);
  vc_assume(tp.lstep <= tp.stepIt->first.size());
  double t0 = tp.time.t, d0 = tp.time.dt, stop = tp.stopTime;
  double beg = ic > 0 ? tp.mySteps[ic-1].second : tp.starTime, end = tp.mySteps[ic].second;
  // between the stages there is no gap, and the stage is not at its end
  vc_assume(t0 >= beg && end-t0 > 1.0e-3);
  for (int i = 0; i < ns; i++) for (double d : tp.mySteps[i].first) vc_assume(d < 1.0e2);
  vc_assume(d0 < 1.0e2);
  std::vector<double> sched = tp.mySteps[ic].first;
  size_t l0 = tp.lstep;
  int s0 = tp.step;
  double want = l0 < sched.size() ? sched[l0] : d0;
  bool ok = tp.increment();
  vc_true(ok,"a step is taken inside a stage");
  if (!ok) return;
  double dt = tp.time.dt;
  vc_eqi(tp.step,s0+1,"the step counter is advanced by one");
  vc_eq(tp.time.t,t0+dt,"new time is the old one plus the step size");
  vc_true(dt > 0.0,"time moves forward");
  vc_le(tp.time.t,stop,"time never passes the stop time");
  vc_le(tp.time.t,end,"time never passes the end of the stage");
  if (t0+want < end-1.0e-3) {
    vc_eq(dt,want,"step size is the one given for the stage");
    vc_eqi(tp.stepIt-tp.mySteps.begin(),ic,"the stage continues");
    vc_eqi(tp.lstep,l0+1,"the next step size of the stage is next");
    vc_cover("inside stage");
  }
  else if (t0+want >= end) {
    vc_eq(tp.time.t,end,"the end of the stage is hit exactly");
    vc_eqi(tp.stepIt-tp.mySteps.begin(),ic+1,"the next stage follows");
    vc_eqi(tp.lstep,0,"the next stage starts with its first step size");
    vc_cover("end of stage");
    if (ic == ns-1) {
      vc_true(tp.finished(),"finished at the end of the last stage");
      vc_true(!tp.increment(),"no step is taken after the stop time");
    }
  }
}

CONTRACT(H_cutback)
{
  TimeStep tp;
  int ns = vc_pick("stages",0,2), ic = ns > 0 ? vc_pick("current",0,ns-1) : 0;
  arbState(tp,ns);
  tp.maxStep = 0;
  tp.stepIt = tp.mySteps.begin()+ic;
  double t0 = tp.time.t, stop = tp.stopTime, mn = tp.dtMin, f = tp.f2 < 1.0 ? tp.f2 : 0.5;
  double beg = ic > 0 ? tp.mySteps[ic-1].second : tp.starTime, end = ns > 0 ? tp.mySteps[ic].second : stop;
  vc_assume(t0 >= beg && end-t0 > 1.0e-3);
  if (!tp.increment()) return;
  double d1 = tp.time.dt, tPrev = tp.time.t-d1;
  int s1 = tp.step;
  std::vector<double> later;
  if (ic+1 < ns) later = tp.mySteps[ic+1].first;
  bool ok = tp.cutback();
  vc_eqi(tp.step,s1,"a cut-back repeats the same step");
  if (!ok) {
    vc_le(d1,mn,"refused only when the minimum step size is reached");
    vc_eq(tp.time.dt,d1,"step size unchanged when refused");
    vc_eq(tp.time.t,tPrev+d1,"time unchanged when refused");
    return;
  }
  vc_cover("cut back");
  double d2 = tp.time.dt;
  vc_true(d1 > mn,"refused below the minimum step size");
  vc_true(d2 < d1,"the step size is reduced");
  vc_le(mn,d2,"the step size stays above its minimum");
  vc_true(d2 == f*d1 || d2 == mn,"reduction factor");
  vc_eq(tp.time.t,tPrev+d2,"time is the previous time plus the reduced step size");
  vc_eqi(tp.iter,0,"iteration counter restarts");
  if (ns > 0) {
    vc_eqi(tp.stepIt-tp.mySteps.begin(),ic,"a cut-back stays in the stage of the step");
    if (ic+1 < ns) {
      vc_eqi(tp.mySteps[ic+1].first.size(),later.size(),"later stages are not changed");
      for (size_t i = 0; i < later.size() && i < tp.mySteps[ic+1].first.size(); i++)
        vc_eq(tp.mySteps[ic+1].first[i],later[i],"later stages are not changed");
    }
  }
  // the invariant of the next increment holds again
  double t2 = tp.time.t;
  if (end-t2 > 1.0e-3 && tp.increment()) {
    vc_le(tp.time.t,end,"after a cut-back the end of the stage is not passed");
    vc_eq(tp.time.t,t2+tp.time.dt,"new time is the old one plus the step size");
  }
}

CONTRACT(H_has_reached)
{
  TimeStep tp;
  tp.time.t = vc_real("t"); tp.time.dt = vc_real_range("dt",0.0,1.0e3);
  double x = vc_real("x");
  vc_assume(x > 0.0);
  double eps = 1.0e-6*std::max(1.0e-6,tp.time.dt);
  bool r = tp.hasReached(x);
  if (tp.time.t >= x) vc_true(r,"a time that is reached is reported");
  if (tp.time.t <= x-eps) vc_true(!r,"a time more than the tolerance away is not reached");
  tp.starTime = vc_real("start"); tp.stopTime = vc_real("stop");
  vc_assume(tp.time.dt > 1.0e-3);
  bool m = tp.multiSteps();
  if (tp.starTime+1.00001*tp.time.dt < tp.stopTime) vc_true(m,"more than one step fits");
  if (tp.starTime+tp.time.dt >= tp.stopTime) vc_true(!m,"one step is enough");
}

CONTRACT(H_reset)
{
  TimeStep tp;
  int ns = vc_pick("stages",0,2), n = vc_pick("istep",0,2);
  arbState(tp,ns);
  tp.dtMin = tp.dtMax = 1.0e-3;
  tp.maxStep = 0;
  TimeStep tq(tp);
  double t0 = tq.starTime;
  vc_true(tp.reset(n) || ns > 0,"reset without a schedule is possible");
  if (ns == 0) { vc_eqi(tp.step,n,"step counter is set"); return; }
  // the same as starting all over
  tq.reset(0);
  tq.time.t = t0;
  bool ok = true;
  for (int i = 0; i < n && ok; i++) ok = tq.increment();
  if (!ok) return;
  if (n > 0) {
    vc_eqi(tp.step,tq.step,"step counter after fast-forward");
    vc_eq(tp.time.t,tq.time.t,"time after fast-forward to a step equals stepping there from the start");
    vc_eq(tp.time.dt,tq.time.dt,"step size after fast-forward");
    vc_eqi(tp.lstep,tq.lstep,"position in the stage after fast-forward");
  }
  else
    vc_eq(tp.time.dt,tp.mySteps.front().first.front(),"first step size");
}

//! Without a schedule, going back to a step restores the time of it
CONTRACT(H_reset_without_schedule)
{
  TimeStep tp;
  arbState(tp,0);
  tp.maxStep = 0;
  int n = vc_pick("steps",1,vc_thorough() ? 3 : 2), k = vc_pick("back",0,2), cut = vc_pick("cut-back",0,1), again = vc_pick("again",0,1);
  if (k >= n) return;
  int s0 = tp.step;
  std::vector<double> t, dt;
  for (int i = 0; i <= n; i++) {
    t.push_back(tp.time.t); dt.push_back(tp.time.dt);
    if (i < n) {
      if (!tp.increment()) return;
      if (cut && i == 0 && !tp.cutback()) return;
    }
  }
  vc_true(tp.reset(s0+k),"reset");
  vc_eqi(tp.step,s0+k,"step counter");
  vc_eq(tp.time.t,t[k],"time of the step");
  vc_eq(tp.time.dt,dt[k],"size of the step");
  if (again && tp.increment()) { // another way forward from there
    double t1 = tp.time.t;
    if (!tp.increment()) return;
    vc_true(tp.reset(s0+k+1),"reset");
    vc_eq(tp.time.t,t1,"time of the repeated step");
  }
}

//! With a schedule, going back to a step restores the time of it
CONTRACT(H_reset_with_schedule)
{
  TimeStep tp;
  int ns = vc_pick("stages",1,2);
  int n = vc_pick("steps",1,vc_thorough() ? 5 : 4), k = vc_pick("back",0,3), cut = vc_pick("cut-back",0,1);
  if (k >= n) return;
  tp.f2 = 0.5; tp.dtMin = tp.dtMax = 1.0e-3; tp.maxStep = 0;
  tp.starTime = tp.time.t = vc_real_range("start",0.0,10.0);
  double end = tp.starTime;
  for (int i = 0; i < ns; i++) {
    double d = vc_real_range("step size",0.1,2.0);
    double len = vc_real_range("stage length",0.1,4.0);
    tp.mySteps.push_back({ {d}, end += len });
  }
  tp.stopTime = end;
  tp.reset(0);
  std::vector<double> t, dt;
  for (int i = 0; i <= n; i++) {
    t.push_back(tp.time.t); dt.push_back(tp.time.dt);
    if (i < n) {
      if (!tp.increment()) return;
      if (cut && i == 0 && !tp.cutback()) return;
    }
  }
  vc_cover(cut ? "back over a cut-back" : "back");
  vc_true(tp.reset(k),"reset");
  vc_eqi(tp.step,k,"step counter");
  vc_eq(tp.time.t,t[k],"time of the step");
  if (k > 0) vc_eq(tp.time.dt,dt[k],"size of the step");
  for (int i = k+1; i <= n && !cut; i++) { // going forward again gives the same steps
    vc_true(tp.increment(),"step repeated");
    vc_eq(tp.time.t,t[i],"time of the repeated step");
    vc_eq(tp.time.dt,dt[i],"size of the repeated step");
  }
}

CONTRACT(H_increment_cfl)
{
  TimeStep tp;
  arbState(tp,0);
  tp.maxStep = 0;
  tp.maxCFL = vc_real_range("maxCFL",0.1,100.0);
  tp.time.CFL = vc_real_range("CFL",0.001,1000.0);
  tp.nInitStep = vc_int("nInit",0,10);
  double t0 = tp.time.t, d0 = tp.time.dt, stop = tp.stopTime, f1 = tp.f1, c = tp.maxCFL, lim = c/tp.time.CFL;
  bool fixed = tp.step <= tp.nInitStep;
  vc_assume(t0 <= stop);
  if (!tp.increment()) { vc_eq(tp.time.t,t0,"time stands still when no further step is taken"); return; }
  vc_eq(tp.time.t,t0+tp.time.dt,"new time is the old one plus the step size");
  vc_le(tp.time.t,stop,"time never passes the stop time");
  double want = fixed ? d0 : std::min(lim,d0*f1);
  if (t0+want <= stop)
    vc_eq(tp.time.dt,want,"step size follows the CFL restriction and grows at most by the given factor");
  else
    vc_eq(tp.time.t,stop,"the last step ends at the stop time");
}
