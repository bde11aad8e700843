// Input streams for the verifier: the real libstdc++ templates for string buffers and string streams are instantiated here;
// the locale-dependent parts (number parsing, white space) are replaced by the "C" locale behaviour written out below.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
#include <istream>
#include <sstream>
#include <fstream>
#include <string>
#include <cstdlib>

namespace std {
static inline bool vcs_space(int c) { return c == ' ' || (c >= 9 && c <= 13); }

template<> void basic_ios<char>::init(basic_streambuf<char>* sb)
{
  this->_M_flags = skipws | dec;
  this->_M_width = 0;
  this->_M_precision = 6;
  this->_M_fill = ' ';
  this->_M_fill_init = true;
  this->_M_tie = nullptr;
  this->_M_exception = goodbit;
  this->_M_streambuf = sb;
  this->_M_streambuf_state = sb ? goodbit : badbit;
}
template<> void basic_ios<char>::clear(iostate state)
{
  this->_M_streambuf_state = this->_M_streambuf ? state : state|badbit;
}
template<> char basic_ios<char>::widen(char c) const { return c; }

template<> basic_istream<char>::sentry::sentry(basic_istream<char>& in, bool noskip) : _M_ok(false)
{
  if (in.good()) {
    if (!noskip && (in.flags() & ios_base::skipws)) {
      int c = in.rdbuf()->sgetc();
      while (c != -1 && vcs_space(c)) c = in.rdbuf()->snextc();
      if (c == -1) in.setstate(ios_base::eofbit);
    }
  }
  if (in.good())
    _M_ok = true;
  else
    in.setstate(ios_base::failbit);
}

template<class T> static bool vcs_number(basic_istream<char>& in, T& v, bool real)
{
  basic_istream<char>::sentry ok(in,false);
  if (!ok) { return false; }
  char buf[64];
  int n = 0, c = in.rdbuf()->sgetc();
  bool digits = false, dot = false, ex = false;
  while (c != -1 && n < 62) {
    if (c >= '0' && c <= '9') digits = true;
    else if ((c == '+' || c == '-') && (n == 0 || (ex && (buf[n-1] == 'e' || buf[n-1] == 'E')))) ;
    else if (real && c == '.' && !dot && !ex) dot = true;
    else if (real && (c == 'e' || c == 'E') && digits && !ex) ex = true;
    else break;
    buf[n++] = c;
    c = in.rdbuf()->snextc();
  }
  buf[n] = 0;
  if (c == -1) in.setstate(ios_base::eofbit);
  if (!digits) { v = T(0); in.setstate(ios_base::failbit); return false; }
  v = real ? T(strtod(buf,nullptr)) : T(strtol(buf,nullptr,10));
  return true;
}
template<> basic_istream<char>& basic_istream<char>::operator>>(int& v) { vcs_number(*this,v,false); return *this; }
template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(double& v) { vcs_number(*this,v,true); return *this; }
template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(long& v) { vcs_number(*this,v,false); return *this; }
template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(unsigned& v) { vcs_number(*this,v,false); return *this; }
template<> template<> basic_istream<char>& basic_istream<char>::_M_extract(unsigned long& v) { vcs_number(*this,v,false); return *this; }

template<> basic_istream<char>& operator>>(basic_istream<char>& in, char& c)
{
  basic_istream<char>::sentry ok(in,false);
  if (ok) {
    int k = in.rdbuf()->sbumpc();
    if (k == -1) in.setstate(ios_base::eofbit|ios_base::failbit);
    else c = k;
  }
  return in;
}
template<> basic_istream<char>& operator>>(basic_istream<char>& in, string& s)
{
  basic_istream<char>::sentry ok(in,false);
  if (!ok) return in;
  s.erase();
  int c = in.rdbuf()->sgetc();
  while (c != -1 && !vcs_space(c)) { s += char(c); c = in.rdbuf()->snextc(); }
  if (c == -1) in.setstate(ios_base::eofbit);
  if (s.empty()) in.setstate(ios_base::failbit);
  return in;
}
template<> basic_istream<char>& getline(basic_istream<char>& in, string& s, char delim)
{
  basic_istream<char>::sentry ok(in,true);
  if (!ok) return in;
  s.erase();
  bool any = false;
  int c = in.rdbuf()->sgetc();
  while (c != -1 && c != (unsigned char)delim) { s += char(c); any = true; c = in.rdbuf()->snextc(); }
  if (c == -1) { in.setstate(ios_base::eofbit); if (!any) in.setstate(ios_base::failbit); }
  else in.rdbuf()->sbumpc();
  return in;
}
template<> basic_istream<char>& ws(basic_istream<char>& in)
{
  int c = in.rdbuf()->sgetc();
  while (c != -1 && vcs_space(c)) c = in.rdbuf()->snextc();
  if (c == -1) in.setstate(ios_base::eofbit);
  return in;
}
template<> int basic_istream<char>::get()
{
  _M_gcount = 0;
  sentry ok(*this,true);
  int c = -1;
  if (ok) {
    c = this->rdbuf()->sbumpc();
    if (c == -1) this->setstate(ios_base::eofbit|ios_base::failbit);
    else _M_gcount = 1;
  }
  return c;
}
template<> basic_istream<char>& basic_istream<char>::get(char& c)
{
  int k = this->get();
  if (k != -1) c = k;
  return *this;
}
template<> int basic_istream<char>::peek()
{
  _M_gcount = 0;
  sentry ok(*this,true);
  int c = -1;
  if (ok) { c = this->rdbuf()->sgetc(); if (c == -1) this->setstate(ios_base::eofbit); }
  return c;
}
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n, int delim)
{
  _M_gcount = 0;
  sentry ok(*this,true);
  if (ok)
    while (_M_gcount < n) {
      int c = this->rdbuf()->sbumpc();
      if (c == -1) { this->setstate(ios_base::eofbit); break; }
      _M_gcount++;
      if (c == delim) break;
    }
  return *this;
}
template<> basic_istream<char>& basic_istream<char>::ignore() { return this->ignore(1,-1); }
template<> basic_istream<char>& basic_istream<char>::ignore(streamsize n) { return this->ignore(n,-1); }

// files: only those announced with vc_file() exist
static const char* vcs_content[8];
static int vcs_nfiles = 0;
extern "C" const char* vc_file(const char* content)
{
  static char names[8][8];
  char* n = names[vcs_nfiles];
  n[0] = 'v'; n[1] = 'c'; n[2] = 'f'; n[3] = '0'+vcs_nfiles; n[4] = 0;
  vcs_content[vcs_nfiles++] = content;
  return n;
}
template<> basic_filebuf<char>::basic_filebuf() : basic_streambuf<char>(), _M_lock(), _M_file(&_M_lock),
  _M_mode(ios_base::openmode(0)), _M_buf(nullptr), _M_buf_size(0), _M_buf_allocated(false), _M_reading(false), _M_writing(false),
  _M_pback_init(false), _M_codecvt(nullptr), _M_ext_buf(nullptr), _M_ext_buf_size(0), _M_ext_next(nullptr), _M_ext_end(nullptr) {}
template<> basic_filebuf<char>* basic_filebuf<char>::open(const char* name, ios_base::openmode mode)
{
  if (_M_reading || !(mode & ios_base::in)) return nullptr;
  if (name[0] != 'v' || name[1] != 'c' || name[2] != 'f' || name[4]) return nullptr;
  char* c = const_cast<char*>(vcs_content[name[3]-'0']);
  size_t n = 0;
  while (c[n]) n++;
  this->setg(c,c,c+n);
  _M_reading = true;
  return this;
}
template<> basic_filebuf<char>* basic_filebuf<char>::close()
{
  if (!_M_reading) return nullptr;
  _M_reading = false;
  this->setg(nullptr,nullptr,nullptr);
  return this;
}
template<> int basic_filebuf<char>::underflow() { return -1; }
template<> streamsize basic_filebuf<char>::showmanyc() { return 0; }
template<> streamsize basic_filebuf<char>::xsgetn(char* p, streamsize n) { return basic_streambuf<char>::xsgetn(p,n); }
template<> streamsize basic_filebuf<char>::xsputn(const char*, streamsize) { return 0; }
template<> int basic_filebuf<char>::overflow(int) { return -1; }
template<> int basic_filebuf<char>::pbackfail(int) { return -1; }
template<> int basic_filebuf<char>::sync() { return 0; }
template<> void basic_filebuf<char>::imbue(const locale&) {}
template<> basic_streambuf<char>* basic_filebuf<char>::setbuf(char*, streamsize) { return this; }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekoff(off_type, ios_base::seekdir, ios_base::openmode) { return pos_type(off_type(-1)); }
template<> basic_filebuf<char>::pos_type basic_filebuf<char>::seekpos(pos_type, ios_base::openmode) { return pos_type(off_type(-1)); }
template<> bool basic_ifstream<char>::is_open() const { return const_cast<basic_filebuf<char>&>(_M_filebuf)._M_reading; }
template<> bool basic_ifstream<char>::is_open() { return _M_filebuf._M_reading; }
template<> basic_istream<char>& basic_istream<char>::getline(char* s, streamsize n, char delim)
{
  _M_gcount = 0;
  sentry ok(*this,true);
  if (ok) {
    int c = this->rdbuf()->sgetc();
    streamsize k = 0;
    while (k+1 < n && c != -1 && c != (unsigned char)delim) {
      s[k++] = c;
      c = this->rdbuf()->snextc();
    }
    _M_gcount = k;
    if (c == -1) this->setstate(ios_base::eofbit);
    else if (c == (unsigned char)delim) { ++_M_gcount; this->rdbuf()->sbumpc(); }
    else this->setstate(ios_base::failbit);
    s[k] = 0;
  }
  if (!_M_gcount) this->setstate(ios_base::failbit);
  return *this;
}
template<> basic_istream<char>& basic_istream<char>::getline(char* s, streamsize n) { return this->getline(s,n,'\n'); }

// as the library, except that a block which does not fit is never split
template<> streamsize basic_streambuf<char>::xsputn(const char* s, streamsize n)
{
  while (this->epptr() - this->pptr() < n) {
    const int gap = this->epptr() - this->pptr();
    this->pbump(gap);
    if (this->overflow(0) == -1) { this->pbump(-gap); return 0; }
    this->pbump(-gap-1);
  }
  __builtin_memcpy(this->pptr(),s,n);
  this->pbump(n);
  return n;
}

// texts and integers written to string streams
static basic_ostream<char>* vcs_pad(basic_ostream<char>& os, const char* s, streamsize n)
{
  streamsize w = os.width();
  bool left = (os.flags() & ios_base::adjustfield) == ios_base::left;
  char fill = os.fill();
  if (!left) for (; w > n; w--) os.rdbuf()->sputc(fill);
  os.rdbuf()->sputn(s,n);
  if (left) for (; w > n; w--) os.rdbuf()->sputc(fill);
  os.width(0);
  return &os;
}
extern "C" basic_ostream<char>* vcs_out_text(basic_ostream<char>& os, const char* s, long n)
{
  if (n < 0) for (n = 0; s[n]; n++);
  return vcs_pad(os,s,n);
}
extern "C" basic_ostream<char>* vcs_out_char(basic_ostream<char>& os, int c)
{
  char s = c;
  return vcs_pad(os,&s,1);
}
extern "C" basic_ostream<char>* vcs_out_int(basic_ostream<char>& os, long v)
{
  char buf[24];
  int n = 24;
  unsigned long u = v < 0 ? -(unsigned long)v : v;
  do { buf[--n] = '0' + u%10; u /= 10; } while (u);
  if (v < 0) buf[--n] = '-';
  return vcs_pad(os,buf+n,24-n);
}

// the real library code
template class basic_ifstream<char>;
template class basic_stringbuf<char>;
template class basic_istringstream<char>;
template class basic_ostringstream<char>;
template class basic_stringstream<char>;
template class basic_streambuf<char>;
}
