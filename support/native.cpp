// Native runtime for contracts: replays recorded inputs or samples random ones.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <cmath>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
#include <sys/mman.h>
#include "vc.h"
struct VcReject {};
struct Entry { const char* name; void (*f)(); };
extern Entry vc_table[];
static std::map<std::string,double> inputs;
static std::map<std::string,int> cnt;
static std::vector<std::pair<std::string,double>> logv;
static bool replay = false;
static unsigned long long rs = 88172645463325252ull;
static int nfail = 0, nchk = 0, nthreads = 1, maythrow = 0, style = 0;
static std::map<std::string,int> covers;
static double scale0 = 1.0;
static unsigned rnd() { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 11); }
static std::string fresh(const char* n) { return std::string(n)+"#"+std::to_string(cnt[n]++); }
static double note(const std::string& n, double v) { logv.push_back({n,v}); return v; }
static double rreal()
{
  switch (style % 4) {
  case 0: return ((int)(rnd()%49)-24)/8.0;
  case 1: return (int)(rnd()%7)-3;
  case 2: return (1+(int)(rnd()%640))/128.0;
  default: return ((int)(rnd()%2001)-1000)/250.0;
  }
}
extern "C" {
double vc_real(const char* n)
{
  std::string s = fresh(n);
  if (replay) { auto it = inputs.find(s); return note(s, it == inputs.end() ? 0.0 : it->second); }
  return note(s, rreal());
}
double vc_real_range(const char* n, double lo, double hi)
{
  std::string s = fresh(n);
  if (replay) { auto it = inputs.find(s); return note(s, it == inputs.end() ? lo : it->second); }
  double r = (rnd()%1025)/1024.0;
  return note(s, lo + r*(hi-lo));
}
int vc_int(const char* n, int lo, int hi)
{
  if (lo > hi) throw VcReject();
  std::string s = fresh(n);
  if (replay) { auto it = inputs.find(s); return (int)note(s, it == inputs.end() ? lo : it->second); }
  long w = (long)hi - lo + 1; if (w > 60) w = 60;
  return (int)note(s, lo + (int)(rnd()%w));
}
int vc_pick(const char* n, int lo, int hi) { return vc_int(n,lo,hi); }
int vc_size(const char* n, int lo, int hi) { return vc_int(n,lo,hi); }
size_t vc_index(const char* n, size_t m) { if (m == 0) throw VcReject(); return (size_t)vc_int(n,0,(int)m-1); }
int vc_bool(const char* n) { return vc_int(n,0,1); }
void vc_fill(double* p, size_t m, const char* n)
{
  std::string s = fresh(n);
  for (size_t i = 0; i < m; i++) {
    std::string k = s+"."+std::to_string(i);
    if (replay) { auto it = inputs.find(k); p[i] = note(k, it == inputs.end() ? 0.0 : it->second); }
    else p[i] = note(k, rreal());
  }
}
void vc_fill_range(double* p, size_t m, const char* n, double lo, double hi)
{
  std::string s = fresh(n);
  for (size_t i = 0; i < m; i++) {
    std::string k = s+"."+std::to_string(i);
    if (replay) { auto it = inputs.find(k); p[i] = note(k, it == inputs.end() ? lo : it->second); }
    else p[i] = note(k, lo + (rnd()%1025)/1024.0*(hi-lo));
  }
}
void vc_filli(int* p, size_t m, const char* n, int lo, int hi)
{
  std::string s = fresh(n);
  for (size_t i = 0; i < m; i++) {
    std::string k = s+"."+std::to_string(i);
    if (replay) { auto it = inputs.find(k); p[i] = (int)note(k, it == inputs.end() ? lo : it->second); }
    else p[i] = (int)note(k, lo + (int)(rnd()%((long)hi-lo+1)));
  }
}
double vc_uf(const char* n, const double* a, int m)
{
  long h = 0;
  for (const char* c = n; *c; c++) h = (h*131 + *c) % 1000003;
  double r = (h % 97)/97.0 + 0.5;
  for (int k = 0; k < m; k++) { double c = ((h/(7+k)) % 89)/89.0 + 0.3; r += c*a[k] + (0.11+0.05*k)*a[k]*a[k]; }
  return r;
}
void vc_assume(int c) { if (!c) throw VcReject(); }
static void check(bool ok, const char* l, const char* d)
{
  ++nchk;
  if (ok) return;
  ++nfail;
  printf("FAIL %s : %s\n", l, d);
  fflush(stdout);
}
void vc_true(int c, const char* l) { check(c,l,"condition is false"); if (!c) throw VcReject(); }
void vc_eq(double a, double b, const char* l)
{
  char d[128]; snprintf(d,128,"%.15g != %.15g",a,b);
  double s = fmax(1.0,fmax(fabs(a),fabs(b)));
  check(a == b || fabs(a-b) <= 1e-7*s, l, d);
}
void vc_eqi(long a, long b, const char* l) { char d[64]; snprintf(d,64,"%ld != %ld",a,b); check(a == b,l,d); }
void vc_le(double a, double b, const char* l)
{
  char d[128]; snprintf(d,128,"%.15g > %.15g",a,b);
  double s = fmax(1.0,fmax(fabs(a),fabs(b)));
  check(a <= b || fabs(a-b) <= 1e-9*s, l, d);
}
void vc_near(double a, double b, double t, const char* l)
{
  char d[128]; snprintf(d,128,"|%.15g - %.15g| > %g",a,b,t); check(fabs(a-b) <= t,l,d);
}
void vc_cover(const char* l) { covers[l]++; }
void vc_may_throw(int on) { maythrow = on; }
void vc_stop() { throw VcReject(); }
int vc_symbolic() { return 0; }
int vc_unbounded() { return 0; }
int vc_thorough() { const char* t = getenv("VERIF_TIER"); return t && !strcmp(t,"thorough"); }
const char* vc_file(const char* content)
{
  static char names[8][40];
  static int n = 0, fds[8];
  int k = n++ % 8;
  if (n > 8) close(fds[k]);
  fds[k] = memfd_create("vc",0);
  if (write(fds[k],content,strlen(content)) < 0) abort();
  snprintf(names[k],40,"/proc/self/fd/%d",fds[k]);
  return names[k];
}
void vc_set_threads(int n) { nthreads = n; }
int omp_get_max_threads() { return nthreads; }
int omp_get_num_threads() { return 1; }
int omp_get_thread_num() { return 0; }
int omp_in_parallel() { return 0; }
void omp_set_num_threads(int) {}
}
static const char* dumpfile = nullptr;
static void dump()
{
  if (!dumpfile) return;
  FILE* f = fopen(dumpfile,"w");
  if (!f) return;
  for (auto& e : logv) fprintf(f,"%s %.17g\n",e.first.c_str(),e.second);
  fclose(f);
}
// usage: prog replay HARNESS FILE | prog random HARNESS SEED COUNT DUMPFILE SECONDS
int main(int argc, char** argv)
{
  void (*f)() = nullptr;
  for (Entry* e = vc_table; e->name; e++) if (!strcmp(e->name,argv[2])) f = e->f;
  if (!f) { printf("no such contract\n"); return 3; }
  if (!strcmp(argv[1],"replay")) {
    replay = true;
    FILE* in = fopen(argv[3],"r");
    char line[4096];
    while (in && fgets(line,4096,in)) {
      if (line[0] == '!') continue;
      char* v = strrchr(line,' '); // a name may contain blanks
      if (!v || v == line) continue;
      *v++ = 0;
      inputs[line] = strtod(v,nullptr);
    }
    if (in) fclose(in);
    try { f(); }
    catch (VcReject&) { if (!nfail) printf("REJECTED (assumption not met)\n"); }
    catch (...) { if (!maythrow) { printf("FAIL exception : the code threw\n"); nfail++; } }
    printf("checked %d failed %d\n",nchk,nfail);
    fflush(stdout);
    _exit(nfail ? 1 : 0);
  }
  unsigned long seed = strtoul(argv[3],nullptr,10);
  int n = atoi(argv[4]), done = 0, rej = 0;
  dumpfile = argv[5];
  double secs = atof(argv[6]);
  time_t t0 = time(nullptr);
  for (int i = 0; i < n && !nfail && difftime(time(nullptr),t0) < secs; i++) {
    rs = 88172645463325252ull ^ (seed*0x9E3779B97F4A7C15ull) ^ ((unsigned long long)(i+1)*0xD1B54A32D192ED03ull);
    for (int k = 0; k < 4; k++) rnd();
    style = i;
    cnt.clear(); logv.clear(); nthreads = 1; maythrow = 0;
    { FILE* c = fopen((std::string(dumpfile)+".cur").c_str(),"w"); if (c) { fprintf(c,"%d\n",i); fclose(c); } }
    try { f(); done++; }
    catch (VcReject&) { rej++; }
    catch (...) { if (!maythrow) { printf("FAIL exception : the code threw\n"); nfail++; } }
    if (nfail) dump();
  }
  printf("runs %d rejected %d checked %d failed %d\n",done,rej,nchk,nfail);
  fflush(stdout);
  _exit(nfail ? 1 : 0);
}
