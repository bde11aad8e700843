// VC-TU: src/ASM/DomainDecomposition.C
// VC-TIME: 100
#include "vc.h"
#include "DomainDecomposition.h"

//! The range of elements in one direction of sub-domain k out of g
static void range(int n, int g, int k, int ov, int& lo, int& hi)
{
  int size = n/g + 1;
  if (g == 1) { lo = 0; hi = n; return; }
  lo = k*(size-ov); hi = k == g-1 ? n : lo+size;
  if (lo > n) lo = n;
  if (hi > n) hi = n;
}

static void check(const IntMat& sub, int n1, int n2, int n3, int g1, int g2, int g3, int ov)
{
  int nel = n1*n2*n3, bad = 0, box = 0, miss = 0, many = 0, share = 0, dup = 0;
  vc_eqi(sub.size(),g1*g2*g3,"number of sub-domains");
  if (sub.size() != (size_t)(g1*g2*g3)) return;
  std::vector<int> cnt(nel,0), lo(3*sub.size(),1000), hi(3*sub.size(),-1);
  for (size_t d = 0; d < sub.size(); d++) {
    std::vector<int> mine(nel,0);
    for (int e : sub[d]) {
      if (e < 0 || e >= nel) { bad++; continue; }
      if (mine[e]++) dup++;
      cnt[e]++;
      int i[3] = { e%n1, (e/n1)%n2, e/(n1*n2) };
      for (int k = 0; k < 3; k++) {
        if (i[k] < lo[3*d+k]) lo[3*d+k] = i[k];
        if (i[k] > hi[3*d+k]) hi[3*d+k] = i[k];
      }
    }
    if (!sub[d].empty()) {
      size_t vol = 1;
      for (int k = 0; k < 3; k++) vol *= hi[3*d+k]-lo[3*d+k]+1;
      if (vol != sub[d].size()) box++;
    }
  }
  for (int e = 0; e < nel; e++) {
    if (cnt[e] < 1) miss++;
    if (cnt[e] > 1 && !ov) many++;
  }
  // Neighbours share the overlap only, unless clipped at the boundary
  int g[3] = { g1,g2,g3 }, n[3] = { n1,n2,n3 };
  for (int c = 0; c < g1*g2*g3; c++) {
    if (sub[c].empty()) continue;
    int i[3] = { c%g1, (c/g1)%g2, c/(g1*g2) };
    for (int k = 0; k < 3; k++) {
      int l, h;
      range(n[k],g[k],i[k],ov,l,h);
      if (lo[3*c+k] != l || hi[3*c+k] != h-1) share++;
      int nb = c + (k == 0 ? 1 : (k == 1 ? g1 : g1*g2));
      if (i[k]+1 < g[k] && !sub[nb].empty()) {
        int common = hi[3*c+k]+1 - lo[3*nb+k];
        if (common != ov && hi[3*c+k]+1 != n[k]) share++;
        if (common > ov) share++;
      }
    }
  }
  vc_eqi(bad,0,"only existing elements are listed");
  vc_eqi(dup,0,"no element is listed twice in a sub-domain");
  vc_eqi(miss,0,"every element is in a sub-domain");
  vc_eqi(many,0,"without overlap, each element is in one sub-domain");
  vc_eqi(box,0,"sub-domains are boxes");
  vc_eqi(share,0,"neighbouring sub-domains share the overlap");
}

static bool valid(int n, int g, int ov) { return g == 1 || ov <= n/g; }

CONTRACT(H_1D)
{
  int g = vc_pick("g",1,6), ov = vc_pick("overlap",0,3);
  for (int n = 1; n <= 24; n++)
    if (valid(n,g,ov))
      check(DomainDecomposition::calcSubdomains(n,0,0,g,1,1,ov),n,1,1,g,1,1,ov);
  vc_cover("1D");
}

CONTRACT(H_2D)
{
  int g1 = vc_pick("g1",1,4), g2 = vc_pick("g2",1,4), ov = vc_pick("overlap",0,2), n1 = vc_pick("n1",1,8);
  for (int n2 = 1 + (vc_thorough() ? 0 : n1%2); n2 <= 8; n2 += vc_thorough() ? 1 : 2)
    if (valid(n1,g1,ov) && valid(n2,g2,ov)) {
      check(DomainDecomposition::calcSubdomains(n1,n2,0,g1,g2,1,ov),n1,n2,1,g1,g2,1,ov);
      vc_cover("2D");
    }
}

CONTRACT(H_3D)
{
  int g1 = vc_pick("g1",1,3), g2 = vc_pick("g2",1,3), g3 = vc_pick("g3",1,3), ov = vc_pick("overlap",0,1), n1 = vc_pick("n1",1,4);
  for (int n2 = 1; n2 <= 5; n2 += vc_thorough() ? 1 : 2)
    for (int n3 = 1 + (vc_thorough() ? 0 : (n1+n2/2)%2); n3 <= 5; n3 += vc_thorough() ? 1 : 3)
      if (valid(n1,g1,ov) && valid(n2,g2,ov) && valid(n3,g3,ov)) {
        check(DomainDecomposition::calcSubdomains(n1,n2,n3,g1,g2,g3,ov),n1,n2,n3,g1,g2,g3,ov);
        vc_cover("3D");
      }
}
