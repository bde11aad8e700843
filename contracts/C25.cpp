// VC-TU: src/Utility/ControlFIFO.C
// VC-TIME: 120
// VC-ASSUME: the system calls mkfifo, open, read, close, unlink and the XML library are replaced by recorders in the contract file: read may return any length up to the requested one with any content, parsing may find any element tree
#include "vc.h"
#include "ControlFIFO.h"
#include "tinyxml2.h"
#include <sys/stat.h>
#include <sys/types.h>
#include <fcntl.h>
#include <unistd.h>
#include <cstring>
#include <string>
#include <vector>

// ---- The environment: a pipe with a script of messages -------------------
static const int FD = 77;
static int opens, closes, unlinks, makes, makeFails, openFails;
static char msg[8192];       // the next message
static int  msgLen;          // its length (-1: nothing available)
static int  reads, lastRead; // number of reads, size of the last one
static char names[512];      // file names used
static bool wrongName, wrongFd;
static int  parses;
static char parsed[8192];    // text handed to the parser
static size_t parsedLen;
static int  tree[4], nTree;  // the tree found (-1 elements: no root)

static void reset();
static void check(const char* p) { if (strcmp(p,names)) wrongName = true; }

extern "C" {
  int mkfifo(const char* p, mode_t) noexcept { check(p); ++makes; return makeFails ? -1 : 0; }
  int open(const char* p, int, ...) { check(p); ++opens; return openFails ? -1 : FD; }
  int close(int fd) { if (fd != FD) wrongFd = true; ++closes; return 0; }
  int unlink(const char* p) noexcept { check(p); ++unlinks; return 0; }
  ssize_t read(int fd, void* buf, size_t n)
  {
    if (fd != FD) wrongFd = true;
    ++reads;
    if (msgLen < 0) return -1;
    lastRead = (size_t)msgLen < n ? msgLen : (int)n;
    memcpy(buf,msg,lastRead);
    msgLen -= lastRead;
    memmove(msg,msg+lastRead,msgLen);
    return lastRead;
  }
}

// ---- A minimal stand-in for the XML library -------------------------------
namespace tinyxml2 {
static const char* const tags[] = { "a", "bb", "none" };
static XMLElement* pool[8];
static int nPool;
static const char* tagOf(const XMLNode* n) { return static_cast<const char*>(n->_userData); }

StrPair::~StrPair() {}
XMLNode::XMLNode(XMLDocument* d) : _document(d), _parent(0), _value(), _parseLineNum(0), _firstChild(0),
  _lastChild(0), _prev(0), _next(0), _userData(0), _memPool(0) {}
XMLNode::~XMLNode() {}
char* XMLNode::ParseDeep(char* p, StrPair*, int*) { return p; }
XMLElement::XMLElement(XMLDocument* d) : XMLNode(d), _closingType(OPEN), _rootAttribute(0) {}
XMLElement::~XMLElement() {}
bool XMLElement::Accept(XMLVisitor*) const { return true; }
XMLNode* XMLElement::ShallowClone(XMLDocument*) const { return nullptr; }
bool XMLElement::ShallowEqual(const XMLNode*) const { return false; }
char* XMLElement::ParseDeep(char* p, StrPair*, int*) { return p; }
bool XMLDocument::Accept(XMLVisitor*) const { return true; }
XMLDocument::XMLDocument(bool pe, Whitespace w) : XMLNode(0), _writeBOM(false), _processEntities(pe), _errorID(XML_SUCCESS),
  _whitespaceMode(w), _errorLineNum(0), _charBuffer(0), _parseCurLineNum(0), _parsingDepth(0) { _document = this; }
XMLDocument::~XMLDocument() { this->Clear(); }
void XMLDocument::Clear()
{
  for (int i = 0; i < nPool; i++) delete pool[i];
  nPool = 0;
  _firstChild = _lastChild = 0;
}
static XMLElement* add(XMLDocument* d, XMLNode* parent, const char* tag)
{
  XMLElement* e = pool[nPool++] = new XMLElement(d);
  e->_userData = const_cast<char*>(tag);
  e->_parent = parent;
  e->_prev = parent->_lastChild;
  (parent->_lastChild ? parent->_lastChild->_next : parent->_firstChild) = e;
  parent->_lastChild = e;
  return e;
}
XMLError XMLDocument::Parse(const char* p, size_t n)
{
  this->Clear();
  ++parses;
  if (n == static_cast<size_t>(-1)) n = strlen(p);
  size_t k = 0;
  for (; k < n && p[k]; k++)
    if (k < sizeof(parsed)) parsed[k] = p[k];
  parsedLen = k;
  if (nTree < 0) return _errorID = XML_ERROR_PARSING;
  XMLElement* root = add(this,this,"control");
  for (int i = 0; i < nTree; i++)
    add(this,root,tags[tree[i]]);
  return _errorID = XML_SUCCESS;
}
const char* XMLNode::Value() const { return tagOf(this); }
const XMLElement* XMLNode::FirstChildElement(const char* n) const
{
  for (const XMLNode* c = _firstChild; c; c = c->_next)
    if (!n || !strcmp(n,tagOf(c))) return static_cast<const XMLElement*>(c);
  return nullptr;
}
const XMLElement* XMLNode::NextSiblingElement(const char* n) const
{
  for (const XMLNode* c = _next; c; c = c->_next)
    if (!n || !strcmp(n,tagOf(c))) return static_cast<const XMLElement*>(c);
  return nullptr;
}
}

namespace {
  struct Calls { int who[16]; const tinyxml2::XMLElement* elm[16]; char tag[16]; int n; };
  Calls calls;
  class Callback : public ControlCallback
  {
    int id; const char* name;
  public:
    Callback(int i, const char* n) : id(i), name(n) {}
    virtual ~Callback() {}
    void OnControl(const tinyxml2::XMLElement* e) override
    {
      calls.who[calls.n] = id;
      calls.tag[calls.n] = e->Value()[0];
      calls.n++;
    }
    std::string GetContext() const override { return name; }
  };
}

static void reset()
{
  opens = closes = unlinks = makes = makeFails = openFails = reads = lastRead = parses = nTree = calls.n = 0;
  wrongName = wrongFd = false;
  msgLen = -1;
  strcpy(names,"pipe");
}

//! A message of length n: content 0 has no zero, 1 starts with zero, 2 has a zero in the middle, 3 at the end
static int message(int n, int content)
{
  for (int i = 0; i < n; i++) msg[i] = 'A' + i%23;
  int zero = content == 1 ? 0 : content == 2 ? n/2 : content == 3 ? n-1 : n;
  if (zero >= 0 && zero < n) msg[zero] = 0;
  msgLen = n;
  return zero < 0 ? 0 : zero;
}

static int lengthOf(int pick)
{
  static const int len[] = { -1, 0, 1, 2, 3, 64, 2046, 2047, 2048, 2049, 4095, 4096, 5000 };
  return len[pick];
}

//! One or two messages of any length; the second one is not mixed with the first
CONTRACT(H_poll)
{
  int two = vc_pick("messages",1,2);
  reset();
  ControlFIFO fifo;
  Callback a(0,"a"), b(1,"bb");
  fifo.registerCallback(a);
  if (vc_pick("both",0,1)) fifo.registerCallback(b);
  vc_true(fifo.open("pipe"),"opened");
  int sofar = 0;
  for (int m = 0; m < two; m++) {
    int len = lengthOf(m == 0 ? vc_pick("length",0,12) : vc_pick("length2",0,4));
    int zero = message(len,len > 0 ? vc_pick("content",0,3) : 0);
    char sent[8192];
    memcpy(sent,msg,sizeof(sent));
    nTree = m == 0 ? vc_pick("elements",-1,1) : 1;
    for (int i = 0; i < nTree; i++) tree[i] = 0;
    parses = reads = 0;
    fifo.poll();
    vc_true(reads >= 1,"the pipe is read");
    int got = len < 0 ? 0 : len-msgLen;
    if (got > 0 && sent[0]) {
      int end = zero < got ? zero : got;
      vc_eqi(parses,1,"message parsed once");
      vc_eqi(parsedLen,end,"exactly the received text is parsed");
      bool same = true;
      for (int i = 0; i < end && i < (int)parsedLen; i++) same &= parsed[i] == sent[i];
      vc_true(same,"the received text is parsed");
      sofar += nTree == 1 ? 1 : 0;
    }
    else
      vc_eqi(parses,0,"nothing is parsed without a message");
    vc_eqi(calls.n,sofar,"control functions are only invoked for valid messages");
    vc_true(len <= 0 || got > 0,"something is received");
  }
  vc_true(!wrongFd && !wrongName,"only the pipe is touched");
}

//! The control functions are invoked for the elements with their name, in order
CONTRACT(H_callbacks)
{
  reset();
  {
    ControlFIFO fifo;
    Callback a(0,"a"), b(1,"bb"), c(2,"c");
    int reg = vc_pick("registered",0,7);
    if (reg & 1) fifo.registerCallback(a);
    if (reg & 2) fifo.registerCallback(b);
    if (reg & 4) fifo.registerCallback(c);
    fifo.open("pipe");
    nTree = vc_pick("elements",0,3);
    for (int i = 0; i < nTree; i++) tree[i] = vc_pick("element",0,2);
    message(10,0);
    fifo.poll();
    int k = 0;
    for (int i = 0; i < nTree; i++)
      if (tree[i] < 2 && (reg & (1 << tree[i]))) {
        vc_true(k < calls.n && calls.who[k] == tree[i],"function of the element's name");
        vc_true(k < calls.n && calls.tag[k] == tinyxml2::tags[tree[i]][0],"with this element");
        k++;
      }
    vc_eqi(calls.n,k,"one call for each registered element");
    if (k > 1) vc_cover("several calls");
    vc_eqi(closes,0,"still open");
  }
  vc_eqi(closes,1,"closed at the end");
  vc_eqi(makes,1,"one pipe");
  vc_eqi(unlinks,2,"removed before creation and at the end");
  vc_true(!wrongFd && !wrongName,"only the pipe is touched");
}

//! A pipe that is not opened or cannot be created is never read, nor removed afterwards
CONTRACT(H_not_open)
{
  reset();
  int which = vc_pick("case",0,2);
  {
    ControlFIFO fifo;
    Callback a(0,"a");
    fifo.registerCallback(a);
    makeFails = which == 1;
    openFails = which == 2;
    if (which > 0) {
      bool ok = fifo.open("pipe");
      if (which == 1) vc_true(!ok,"failure is reported");
    }
    message(10,0);
    nTree = 1;
    fifo.poll();
    vc_eqi(reads,0,"nothing is read");
    vc_eqi(calls.n,0,"nothing is done");
  }
  vc_eqi(closes,0,"nothing is closed");
  vc_true(!wrongFd && !wrongName,"only the pipe is touched");
}
