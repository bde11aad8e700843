// VC-TU: src/Utility/ThreadGroups.C src/Utility/LogStream.C
// VC-TIME: 120
#include "vc.h"
#include "ThreadGroups.h"
#include "IFEM.h"
#include <iostream>

utl::LogStream IFEM::cout(std::cout);

typedef std::vector<bool> BoolVec;
typedef std::vector<int>  IntVec;
typedef ThreadGroups TG;

//! Every element with non-zero measure is in exactly one list, the others in at most one
static void checkCover(const TG& tg, const BoolVec& e1, const BoolVec& e2, const BoolVec& e3)
{
  int n1 = e1.size(), n2 = e2.size(), n3 = e3.size(), n = n1*n2*n3;
  IntVec cnt(n,0);
  int bad = 0, miss = 0, dup = 0;
  for (int g = 0; g < 2; g++)
    for (const IntVec& lst : tg[g])
      for (int e : lst)
        if (e < 0 || e >= n) bad++; else cnt[e]++;
  for (int i = 0; i < n; i++) {
    bool nz = e1[i%n1] && e2[(i/n1)%n2] && e3[i/(n1*n2)];
    if (nz && cnt[i] < 1) miss++;
    if (cnt[i] > 1) dup++;
  }
  vc_eqi(bad,0,"only existing elements are listed");
  vc_eqi(miss,0,"every element is listed");
  vc_eqi(dup,0,"no element is listed twice");
}

static int dist(int a, int b) { return a > b ? a-b : b-a; }

//! Index range of the elements in a list, in each direction
static void range(const IntVec& lst, int n1, int n2, int r[6])
{
  r[0] = r[2] = r[4] = 1000000; r[1] = r[3] = r[5] = -1000000;
  for (int e : lst) {
    int i[3] = { e%n1, (e/n1)%n2, e/(n1*n2) };
    for (int d = 0; d < 3; d++) {
      if (i[d] < r[2*d]) r[2*d] = i[d];
      if (i[d] > r[2*d+1]) r[2*d+1] = i[d];
    }
  }
}

//! Elements of two threads in the same group have disjoint support in some direction
static void checkClash(const TG& tg, int n1, int n2, int p1, int p2, int p3)
{
  int clash = 0, p[3] = { p1,p2,p3 };
  for (int g = 0; g < 2; g++) {
    std::vector<int> box(6*tg[g].size());
    for (size_t s = 0; s < tg[g].size(); s++) {
      int* a = &box[6*s];
      range(tg[g][s],n1,n2,a);
      for (size_t t = 0; t < s; t++) {
        const int* b = &box[6*t];
        bool apart = false;
        for (int d = 0; d < 6 && !apart; d += 2)
          apart = a[d]-b[d+1] > p[d/2] || b[d]-a[d+1] > p[d/2];
        if (!apart)
          for (int e : tg[g][s])
            for (int f : tg[g][t])
              if (dist(e%n1,f%n1) <= p1 && dist((e/n1)%n2,(f/n1)%n2) <= p2 && dist(e/(n1*n2),f/(n1*n2)) <= p3)
                clash++;
      }
    }
  }
  vc_eqi(clash,0,"threads of a group do not share basis functions");
}

//! Knot span flags, where the last one has non-zero span (as for clamped knot vectors)
static BoolVec spans(int n, int mask)
{
  BoolVec b(n,true);
  for (int i = 0; i < n-1; i++)
    if (mask & (1 << i)) b[i] = false;
  return b;
}

static TG::StripDirection direction(int d)
{
  return d == 1 ? TG::U : d == 2 ? TG::V : d == 3 ? TG::W : TG::ANY;
}

CONTRACT(H_2D_zero_spans)
{
  int threads = vc_pick("threads",1,4), dir = vc_pick("dir",0,2), p = vc_pick("p",0,3), n = vc_pick("n",1,8), m = 1 + n%2;
  vc_set_threads(threads);
  for (int mask = 0; mask < (1 << (n-1)); mask += vc_thorough() ? (n < 6 ? 1 : (n < 8 ? 3 : 7)) : (n < 4 ? 1 : (n < 7 ? 5 : 21))) {
    BoolVec e1 = spans(n,mask), e2 = spans(m,mask & 1), one(1,true);
    if (dir == 2 || (dir == 0 && (mask & 4))) e1.swap(e2);
    TG tg(direction(dir));
    tg.calcGroups(e1,e2,p,p);
    checkCover(tg,e1,e2,one);
    checkClash(tg,e1.size(),e2.size(),p,p,0);
    vc_true(tg[0].size() <= (size_t)threads && tg[1].size() <= (size_t)threads,"no more lists than threads");
    if (tg.size() > 1) vc_cover("2D, several threads");
  }
}

CONTRACT(H_2D_different_degrees)
{
  int threads = vc_pick("threads",2,3), dir = vc_pick("dir",0,2), p1 = vc_pick("p1",0,2), p2 = vc_pick("p2",0,2);
  vc_set_threads(threads);
  for (int n1 = 1; n1 <= 13; n1 += vc_thorough() ? 3 : 4)
    for (int n2 = 1; n2 <= 9; n2 += vc_thorough() ? 2 : 4) {
      BoolVec e1 = spans(n1,n1 > 6 ? 9 : 0), e2 = spans(n2,n2 > 4 ? 2 : 0), one(1,true);
      TG tg(direction(dir));
      tg.calcGroups(e1,e2,p1,p2);
      checkCover(tg,e1,e2,one);
      checkClash(tg,n1,n2,p1,p2,0);
    }
}

CONTRACT(H_2D_uniform)
{
  int threads = vc_pick("threads",1,4), dir = vc_pick("dir",0,2), p = vc_pick("p",0,3), n1 = vc_pick("n1",1,9);
  vc_set_threads(threads);
  for (int n2 = vc_thorough() ? 1 : (n1+1)%4; n2 <= 9; n2 += vc_thorough() ? 1 : 3) if (n2) {
    BoolVec e1(n1,true), e2(n2,true), one(1,true);
    TG tg(direction(dir));
    tg.calcGroups(n1,n2,p);
    checkCover(tg,e1,e2,one);
    checkClash(tg,n1,n2,p,p,0);
    if (tg.size() > 1) vc_cover("2D uniform, several threads");
  }
}

CONTRACT(H_3D_zero_spans)
{
  int threads = vc_pick("threads",1,3), dir = vc_pick("dir",0,3), p = vc_pick("p",0,2), n = vc_pick("n",1,7), rot = vc_pick("rot",0,2);
  vc_set_threads(threads);
  for (int mask = 0; mask < (1 << (n-1)); mask += vc_thorough() ? (n < 5 ? 1 : (n < 7 ? 5 : 13)) : (n < 3 ? 1 : (n < 7 ? 11 : 51))) {
    BoolVec e[3] = { spans(n,mask), spans(2,mask & 1), spans(1 + (mask & 1),0) };
    const BoolVec &e1 = e[rot], &e2 = e[(rot+1)%3], &e3 = e[(rot+2)%3];
    TG tg(direction(dir));
    tg.calcGroups(e1,e2,e3,p,p,p);
    checkCover(tg,e1,e2,e3);
    checkClash(tg,e1.size(),e2.size(),p,p,p);
    if (tg.size() > 1) vc_cover("3D, several threads");
  }
}

CONTRACT(H_3D_different_degrees)
{
  int threads = vc_pick("threads",2,3), dir = vc_pick("dir",0,3), k = vc_pick("deg",0,5), n1 = 2*vc_pick("n1",1,3);
  vc_set_threads(threads);
  int p1 = k%3, p2 = (k+1)%3, p3 = (k+2)%3;
  if (k > 2) { int t = p1; p1 = p2; p2 = t; }
  for (int n2 = 1; n2 <= 7; n2 += vc_thorough() ? 3 : 6)
    for (int n3 = 1; n3 <= 5; n3 += 2) {
      BoolVec e1 = spans(n1,n1 > 4 ? 2 : 0), e2 = spans(n2,n2 > 4 ? 5 : 0), e3 = spans(n3,n3 > 4 ? 1 : 0);
      TG tg(direction(dir));
      tg.calcGroups(e1,e2,e3,p1,p2,p3);
      checkCover(tg,e1,e2,e3);
      checkClash(tg,n1,n2,p1,p2,p3);
    }
}

CONTRACT(H_3D_uniform)
{
  int threads = vc_pick("threads",1,3), dir = vc_pick("dir",0,3), p = vc_pick("p",0,2), n1 = vc_pick("n1",1,4)*2-1;
  vc_set_threads(threads);
  for (int n2 = 1; n2 <= 5; n2 += vc_thorough() ? 2 : 4)
    for (int n3 = 1; n3 <= 7; n3 += vc_thorough() ? 3 : 6) {
      BoolVec e1(n1,true), e2(n2,true), e3(n3,true);
      TG tg(direction(dir));
      tg.calcGroups(n1,n2,n3,p);
      checkCover(tg,e1,e2,e3);
      checkClash(tg,n1,n2,p,p,p);
      if (tg.size() > 1) vc_cover("3D uniform, several threads");
    }
}

static void setup(TG& tg, int kind, int& n1, int& n2, int& n3)
{
  n3 = 1;
  switch (kind) {
  case 0: n1 = 5; n2 = 2; tg.calcGroups(n1,n2,1); break;
  case 1: n1 = 2; n2 = 7; tg.calcGroups(spans(2,1),spans(7,4),1,1); break;
  case 2: n1 = 2; n2 = 2; n3 = 6; tg.calcGroups(n1,n2,n3,1); break;
  case 3: n1 = 4; n2 = 1; n3 = 3; tg.calcGroups(spans(4,2),spans(1,0),spans(3,0),1,1,1); break;
  case 4: n1 = 6; n2 = 1; tg.oneGroup(6); break;
  case 5: n1 = 6; n2 = 1; tg.oneStripe(6); break;
  case 6: n1 = 3; n2 = 1; tg.oneGroup(3,{}); break;
  case 7: n1 = 3; n2 = 1; tg.oneStripe(3,{}); break;
  }
}

CONTRACT(H_recalculate)
{
  // A second calculation replaces the first one, whatever it was
  int first = vc_pick("first",0,7), second = vc_pick("second",0,7), threads = vc_pick("threads",1,3), t2 = vc_pick("threads2",1,3);
  TG tg;
  int n1, n2, n3;
  vc_set_threads(threads);
  setup(tg,first,n1,n2,n3);
  vc_set_threads(t2);
  if (tg.stripDir == TG::W) tg.stripDir = TG::ANY;
  setup(tg,second,n1,n2,n3);
  BoolVec e1(n1,true), e2(n2,true), e3(n3,true);
  checkCover(tg,e1,e2,e3);
  if (second < 4) checkClash(tg,n1,n2,1,1,n3 > 1 ? 1 : 0);
}

CONTRACT(H_selected_elements)
{
  int n = vc_pick("n",0,3), stripe = vc_pick("stripe",0,1), old = vc_pick("old",0,5);
  IntVec elms(n);
  vc_filli(elms.data(),n,"e",0,9);
  TG tg;
  int a, b, c;
  vc_set_threads(2);
  if (old < 4) setup(tg,old,a,b,c);
  if (stripe) tg.oneStripe(4,elms); else tg.oneGroup(4,elms);
  vc_eqi(tg.size(),1,"one group");
  vc_true(tg[1].empty(),"second group is empty");
  size_t expect = n ? n : 4;
  if (!stripe) {
    vc_eqi(tg[0].size(),1,"one list");
    vc_eqi(tg[0][0].size(),expect,"number of elements");
    for (size_t i = 0; i < expect; i++) vc_eqi(tg[0][0][i],n ? elms[i] : (int)i,"selected elements");
  }
  else {
    vc_eqi(tg[0].size(),expect,"one list for each element");
    for (size_t i = 0; i < expect; i++) {
      vc_eqi(tg[0][i].size(),1,"one element in each list");
      vc_eqi(tg[0][i][0],n ? elms[i] : (int)i,"selected elements");
    }
  }
}

CONTRACT(H_selection_empty)
{
  // A list starting with a negative number selects nothing
  int stripe = vc_pick("stripe",0,1), old = vc_pick("old",0,5);
  TG tg;
  int a, b, c;
  vc_set_threads(2);
  if (old < 4) setup(tg,old,a,b,c);
  IntVec none(1,-1);
  if (stripe) tg.oneStripe(4,none); else tg.oneGroup(4,none);
  for (int g = 0; g < 2; g++)
    for (const IntVec& lst : tg[g]) vc_eqi(lst.size(),0,"no elements");
}

CONTRACT(H_map)
{
  int kind = vc_pick("kind",0,5), n1, n2, n3;
  TG tg;
  vc_set_threads(2);
  setup(tg,kind,n1,n2,n3);
  TG old(tg);
  IntVec map(n1*n2*n3);
  vc_filli(map.data(),map.size(),"map",0,100);
  tg.applyMap(map);
  for (int g = 0; g < 2; g++) {
    vc_eqi(tg[g].size(),old[g].size(),"same number of lists");
    for (size_t t = 0; t < tg[g].size(); t++) {
      vc_eqi(tg[g][t].size(),old[g][t].size(),"same number of elements");
      for (size_t i = 0; i < tg[g][t].size(); i++) vc_eqi(tg[g][t][i],map[old[g][t][i]],"mapped elements");
    }
  }
}

CONTRACT(H_filter)
{
  int kind = vc_pick("kind",0,5), n = vc_pick("n",0,2), n1, n2, n3;
  TG tg;
  vc_set_threads(2);
  setup(tg,kind,n1,n2,n3);
  IntVec sel(n);
  for (int i = 0; i < n; i++) sel[i] = vc_pick("e",0,6) + 2*i;
  const TG& ctg = tg;
  TG flt = ctg.filter(sel);
  for (int g = 0; g < 2; g++) {
    vc_eqi(flt[g].size(),tg[g].size(),"same number of lists");
    for (size_t t = 0; t < tg[g].size(); t++) {
      size_t k = 0;
      for (int e : tg[g][t]) {
        bool in = false;
        for (int s : sel) if (s == e) in = true;
        if (in) { vc_true(k < flt[g][t].size() && flt[g][t][k] == e,"selected elements are kept in order"); k++; }
      }
      vc_eqi(flt[g][t].size(),k,"other elements are left out");
    }
  }
}
