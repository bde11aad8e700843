// VC-TU: src/Utility/Utilities.C src/LinAlg/MatVec.C
// VC-TIME: 250
// VC-PATHS: 30000
#include "vc.h"
#include "Utilities.h"
#include "matrix.h"
#include "Vec3.h"
#include <set>
#include <string>

typedef std::vector<int>    Ints;
typedef std::vector<double> Reals;

static Reals reals(int n, const char* nm)
{
  Reals r(n);
  vc_fill(r.data(),n,nm);
  return r;
}

//! Gathering all rows of the addressed columns
static void gatherAll(int nr, int asMatrix)
{
  int ncol = vc_pick("columns",1,2), off = vc_pick("offset",0,2), ni = vc_pick("indices",0,3), skip = vc_pick("skip",0,2);
  Reals in = reals(off+nr*ncol,"in");
  Ints idx(ni);
  for (int& i : idx) i = vc_pick("index",-1,2);
  int nout = ni > skip ? ni-skip : 0, outside = 0;
  Reals out;
  utl::matrix<double> mat;
  int r = asMatrix ? utl::gather(idx,nr,in,mat,off,skip) : utl::gather(idx,nr,in,out,off,skip);
  if (asMatrix) {
    vc_eqi(mat.size(),nr*nout,"one column for each index");
    if (nout > 0) vc_eqi(mat.rows(),nr,"number of rows");
    out = mat;
  }
  vc_eqi(out.size(),nr*nout,"one column for each index");
  for (int i = 0; i < nout; i++) {
    bool in_range = idx[i] >= 0 && idx[i] < ncol;
    outside += idx[i] >= ncol;
    for (int k = 0; k < nr && (int)out.size() == nr*nout; k++)
      vc_eq(out[nr*i+k],in_range ? in[off+nr*idx[i]+k] : 0.0,"addressed values only");
  }
  vc_eqi(r,outside,"number of indices out of range");
}

CONTRACT(H_gather_1)        { gatherAll(1,0); }
CONTRACT(H_gather_2)        { gatherAll(2,0); }
CONTRACT(H_gather_matrix_2) { gatherAll(2,1); }
CONTRACT(T_gather_3)        { gatherAll(3,0); }
CONTRACT(T_gather_matrix_3) { gatherAll(3,1); }

//! The last column is incomplete
CONTRACT(H_gather_incomplete)
{
  int nr = vc_pick("rows",2,3), rest = vc_pick("rest",1,nr-1), idx = vc_pick("index",0,2);
  Reals in = reals(nr+rest,"in"), out;
  utl::matrix<double> mat;
  vc_eqi(utl::gather({idx},nr,in,out),idx > 0,"incomplete column is out of range");
  vc_eqi(utl::gather({idx},nr,in,mat),idx > 0,"incomplete column is out of range");
  for (int k = 0; k < nr; k++) {
    vc_eq(out[k],idx > 0 ? 0.0 : in[k],"addressed values only");
    vc_eq(mat.ptr()[k],idx > 0 ? 0.0 : in[k],"addressed values only");
  }
}

//! Gathering one row
CONTRACT(H_gather_row)
{
  int nr = vc_pick("rows",1,2), ncol = vc_pick("columns",1,2), off = vc_pick("offset",0,1), ni = vc_pick("indices",0,2);
  int shift = vc_pick("shift",0,1), skip = vc_pick("skip",0,1), ir = vc_pick("row",0,2);
  Reals in = reals(off+nr*ncol,"in"), out;
  Ints idx(ni);
  for (int& i : idx) i = vc_pick("index",-1,3);
  int nout = ni > skip ? ni-skip : 0, outside = 0;
  int r = utl::gather(idx,ir,nr,in,out,off,shift,skip);
  if (ir >= nr) {
    vc_eqi(r,ni,"no such row");
    return;
  }
  vc_eqi(out.size(),nout,"one value for each index");
  for (int i = 0; i < nout && (int)out.size() == nout; i++) {
    int j = idx[i]-shift;
    bool in_range = j >= 0 && j < ncol;
    outside += idx[i] >= 0 && !in_range;
    vc_eq(out[i],in_range ? in[off+nr*j+ir] : 0.0,"addressed values only");
  }
  vc_eqi(r,outside,"number of indices out of range");
}

CONTRACT(H_merge_integers)
{
  int n1 = vc_pick("n1",0,3), n2 = vc_pick("n2",0,3);
  Ints a(n1), b(n2);
  for (int& i : a) i = vc_int("a",-100,100);
  for (int& i : b) i = vc_int("b",-100,100);
  Ints a0(a), b0(b), want(a);
  utl::merge(a,b);
  vc_eqi(b.size(),n2,"the second list is unchanged");
  vc_true((int)a.size() >= n1 && (int)a.size() <= n1+n2,"length of the merged list");
  if ((int)a.size() < n1) return;
  for (int i = 0; i < n1; i++) vc_eqi(a[i],a0[i],"existing entries are kept in order");
  for (int j = 0; j < n2; j++) {
    bool found = false;
    for (int w : want) if (w == b0[j]) found = true;
    if (!found) want.push_back(b0[j]);
  }
  vc_eqi(a.size(),want.size(),"only new entries are appended, once");
  for (size_t i = n1; i < want.size() && i < a.size(); i++) vc_eqi(a[i],want[i],"new entries are appended in order");
}

CONTRACT(H_merge_values)
{
  int n1 = vc_pick("n1",0,3), n2 = vc_pick("n2",0,3);
  Reals a = reals(n1,"a"), b = reals(n2,"b");
  Ints k(n1), l(n2);
  for (int& i : k) i = vc_int("k",-100,100);
  for (int& i : l) i = vc_int("l",-100,100);
  for (int i = 0; i < n2; i++) for (int j = 0; j < i; j++) vc_assume(l[i] != l[j]);
  Reals want(a), a0(a);
  for (int j = 0; j < n2; j++) {
    bool found = false;
    for (int i : k) if (i == l[j]) found = true;
    if (!found) want.push_back(b[j]);
  }
  utl::merge(a,b,k,l);
  vc_eqi(a.size(),want.size(),"values of new indices are appended");
  for (size_t i = 0; i < want.size() && a.size() == want.size(); i++) vc_eq(a[i],want[i],"merged values");
  // consistent with merging the indices
  Ints m(k);
  utl::merge(m,l);
  vc_eqi(m.size(),a.size(),"as many values as indices");
}

CONTRACT(H_interleave)
{
  int n = vc_pick("nodes",0,3), n1 = vc_pick("n1",0,3), n2 = vc_pick("n2",0,2);
  vc_assume(n1+n2 > 0);
  Reals a = reals(n*n1,"a"), b = reals(n*n2,"b"), out = reals(vc_pick("old",0,1),"old");
  utl::interleave(a,b,out,n1,n2);
  vc_eqi(out.size(),n*(n1+n2),"total length");
  if ((int)out.size() != n*(n1+n2)) return;
  for (int i = 0; i < n; i++) {
    for (int k = 0; k < n1; k++) vc_eq(out[i*(n1+n2)+k],a[i*n1+k],"values of the first array");
    for (int k = 0; k < n2; k++) vc_eq(out[i*(n1+n2)+n1+k],b[i*n2+k],"values of the second array");
  }
}

CONTRACT(H_renumber)
{
  int n = vc_pick("n",1,vc_thorough() ? 4 : 3), r0 = vc_int("runner",0,1000), runner = r0;
  Ints v(n), w(n);
  for (int& i : v) i = vc_int("v",-1000,1000);
  w = v;
  IntMap old2new;
  Ints chg(n);
  for (int i = 0; i < n; i++) chg[i] = utl::renumber(w[i],runner,old2new);
  int next = r0;
  Ints first(n);
  for (int i = 0; i < n; i++) {
    int j = 0;
    while (j < i && v[j] != v[i]) j++;
    first[i] = j;
    int want = j < i ? w[j] : ++next;
    vc_eqi(w[i],want,"consecutive numbers in order of first appearance");
    vc_eqi(chg[i],v[i] != w[i],"change is reported");
  }
  vc_eqi(runner,next,"last number assigned");
  vc_eqi(old2new.size(),next-r0,"one entry in the map for each value");
  for (int i = 0; i < n; i++) {
    int x = v[i];
    vc_true(utl::renumber(x,old2new),"value found in the map");
    vc_eqi(x,w[i],"same number by the map");
    x = v[i];
    int rr = runner;
    utl::renumber(x,rr,old2new);
    vc_eqi(x,w[i],"same number when asked again");
    vc_eqi(rr,runner,"no new number for a known value");
  }
  int u = vc_int("u",-1000,1000), u0 = u;
  bool known = false;
  for (int i : v) if (i == u0) known = true;
  vc_eqi(utl::renumber(u,old2new,true),known,"only known values are found");
  if (!known) vc_eqi(u,u0,"unknown value is not changed");
  vc_eqi(old2new.size(),next-r0,"the map is not changed by a look-up");
}

CONTRACT(H_find_closest)
{
  int n = vc_pick("n",0,4);
  Reals a = reals(n,"a");
  for (int i = 1; i < n; i++) vc_assume(a[i-1] <= a[i]);
  double v = vc_real("v");
  size_t i = utl::find_closest(a,v);
  if (n == 0) { vc_eqi(i,0,"empty array"); return; }
  vc_true(i < (size_t)n,"index within the array");
  if (i >= (size_t)n) return;
  double d = a[i]-v;
  if (d < 0.0) d = -d;
  for (int k = 0; k < n; k++)
    vc_le(d,a[k] < v ? v-a[k] : a[k]-v,"no other value is closer");
}

CONTRACT(H_searches)
{
  int n = vc_pick("n",0,4), v = vc_int("value",-100,100);
  Ints a(n);
  IntMap m;
  for (int i = 0; i < n; i++) m[10-3*i] = a[i] = vc_int("a",-100,100);
  int first = -1, key = v;
  for (int i = n-1; i >= 0; i--) if (a[i] == v) first = i;
  for (int i = 0; i < n; i++) if (a[i] == v) key = 10-3*i;
  vc_eqi(utl::findIndex(a,v),first,"first position of the value");
  vc_eqi(utl::findKey(m,v),key,"first key of the value, or the value itself");
  IntMap::const_iterator it = utl::findValue(m,v);
  vc_eqi(it == m.end(),first < 0,"end if not in the map");
  if (it != m.end()) {
    vc_eqi(it->second,v,"the value");
    vc_eqi(it->first,key,"the first key");
  }
}

CONTRACT(H_digits)
{
  int n = vc_pick("digits",1,4), v = 0;
  std::set<int> want;
  for (int i = 0; i < n; i++) {
    int d = vc_pick("digit",i == 0 ? 1 : 0,5);
    v = 10*v + d;
    want.insert(d);
  }
  std::set<int> got = utl::getDigits(v);
  vc_eqi(got.size(),want.size(),"number of different digits");
  for (int d : want) vc_true(got.find(d) != got.end(),"each digit");
  vc_eqi(utl::getDigits(0).size(),0,"zero has no digits");
  int c = n, dirs = utl::getDirs(c), e = 0;
  for (int i = 1; i <= c; i++) e = 10*e+i;
  vc_eqi(dirs,e,"one digit for each direction");
}
