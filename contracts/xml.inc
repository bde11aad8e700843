// A minimal stand-in for the XML library: documents of nested elements with attributes and text (no entities)
#include "tinyxml2.h"
#include <string>
#include <cstring>
#include <strings.h>

namespace tinyxml2 {

struct AttrData : public XMLAttribute
{
  std::string name, value;
  AttrData* link = nullptr;
};

struct ElmData : public XMLElement
{
  std::string name;
  AttrData* attr = nullptr;
  ElmData(XMLDocument* d, const std::string& n) : XMLElement(d), name(n) { _userData = const_cast<char*>(name.c_str()); }
  virtual ~ElmData()
  {
    while (AttrData* a = attr) { attr = a->link; delete a; }
  }
};

struct TextData : public XMLText
{
  std::string text;
  TextData(XMLDocument* d, const std::string& t) : XMLText(d), text(t) { _userData = const_cast<char*>(text.c_str()); }
  virtual ~TextData() {}
};

StrPair::~StrPair() {}
XMLNode::XMLNode(XMLDocument* d) : _document(d), _parent(0), _value(), _parseLineNum(0), _firstChild(0),
  _lastChild(0), _prev(0), _next(0), _userData(0), _memPool(0) {}
static void deleteChildren(XMLNode* n)
{
  while (XMLNode* c = n->_firstChild) { n->_firstChild = c->_next; delete c; }
  n->_lastChild = nullptr;
}
XMLNode::~XMLNode() { deleteChildren(this); }
char* XMLNode::ParseDeep(char* p, StrPair*, int*) { return p; }
XMLElement::XMLElement(XMLDocument* d) : XMLNode(d), _closingType(OPEN), _rootAttribute(0) {}
XMLElement::~XMLElement() {}
bool XMLElement::Accept(XMLVisitor*) const { return true; }
XMLNode* XMLElement::ShallowClone(XMLDocument*) const { return nullptr; }
bool XMLElement::ShallowEqual(const XMLNode*) const { return false; }
char* XMLElement::ParseDeep(char* p, StrPair*, int*) { return p; }
bool XMLText::Accept(XMLVisitor*) const { return true; }
XMLNode* XMLText::ShallowClone(XMLDocument*) const { return nullptr; }
bool XMLText::ShallowEqual(const XMLNode*) const { return false; }
char* XMLText::ParseDeep(char* p, StrPair*, int*) { return p; }
bool XMLDocument::Accept(XMLVisitor*) const { return true; }
XMLDocument::XMLDocument(bool pe, Whitespace w) : XMLNode(0), _writeBOM(false), _processEntities(pe), _errorID(XML_SUCCESS),
  _whitespaceMode(w), _errorLineNum(0), _charBuffer(0), _parseCurLineNum(0), _parsingDepth(0) { _document = this; }
XMLDocument::~XMLDocument() { this->Clear(); }
void XMLDocument::Clear() { deleteChildren(this); _errorID = XML_SUCCESS; }

static void addChild(XMLNode* parent, XMLNode* c)
{
  c->_parent = parent;
  c->_prev = parent->_lastChild;
  (parent->_lastChild ? parent->_lastChild->_next : parent->_firstChild) = c;
  parent->_lastChild = c;
}
static bool isBlank(char c) { return c == ' ' || c == '\n' || c == '\t' || c == '\r'; }
static bool isEnd(char c) { return !c || isBlank(c) || c == '=' || c == '>' || c == '/'; }

XMLError XMLDocument::Parse(const char* p, size_t n)
{
  this->Clear();
  const char* end = p + (n == static_cast<size_t>(-1) ? strlen(p) : n);
  XMLNode* cur = this;
  std::string text;
  while (p < end)
    if (*p != '<')
      text += *p++;
    else
    {
      bool blank = true;
      for (char c : text) if (!isBlank(c)) blank = false;
      if (!blank) addChild(cur,new TextData(this,text));
      text.clear();
      if (p[1] == '?' || p[1] == '!')
      {
        if (end-p > 3 && p[1] == '!' && p[2] == '-' && p[3] == '-')
        {
          for (p += 4; p+2 < end && (p[0] != '-' || p[1] != '-' || p[2] != '>');) ++p;
          p += 2;
        }
        else
          while (p < end && *p != '>') ++p;
        ++p;
      }
      else if (p[1] == '/')
      {
        std::string name;
        for (p += 2; p < end && !isEnd(*p); ++p) name += *p;
        while (p < end && *p != '>') ++p;
        if (p++ == end || cur == this || name != cur->Value()) { this->Clear(); return _errorID = XML_ERROR_MISMATCHED_ELEMENT; }
        cur = cur->_parent;
      }
      else
      {
        std::string name;
        for (++p; p < end && !isEnd(*p); ++p) name += *p;
        ElmData* e = new ElmData(this,name);
        addChild(cur,e);
        AttrData* last = nullptr;
        for (;;)
        {
          while (p < end && isBlank(*p)) ++p;
          if (p == end || name.empty()) { this->Clear(); return _errorID = XML_ERROR_PARSING_ELEMENT; }
          if (*p == '>') { ++p; cur = e; break; }
          if (*p == '/') { p += 2; break; }
          AttrData* a = new AttrData;
          (last ? last->link : e->attr) = a;
          (last ? last->_next : e->_rootAttribute) = a;
          last = a;
          for (; p < end && !isEnd(*p); ++p) a->name += *p;
          while (p < end && *p != '"' && *p != '\'') ++p;
          if (p == end) { this->Clear(); return _errorID = XML_ERROR_PARSING_ATTRIBUTE; }
          char quote = *p++;
          while (p < end && *p != quote) a->value += *p++;
          ++p;
        }
      }
    }
  if (cur != this || !_firstChild) { this->Clear(); return _errorID = XML_ERROR_PARSING; }
  return _errorID = XML_SUCCESS;
}

const char* XMLNode::Value() const { return static_cast<const char*>(_userData); }
const XMLElement* XMLNode::FirstChildElement(const char* n) const
{
  for (const XMLNode* c = _firstChild; c; c = c->_next)
    if (const XMLElement* e = c->ToElement(); e && (!n || !strcmp(n,e->Value()))) return e;
  return nullptr;
}
const XMLElement* XMLNode::NextSiblingElement(const char* n) const
{
  for (const XMLNode* c = _next; c; c = c->_next)
    if (const XMLElement* e = c->ToElement(); e && (!n || !strcmp(n,e->Value()))) return e;
  return nullptr;
}
const char* XMLAttribute::Name() const { return static_cast<const AttrData*>(this)->name.c_str(); }
const char* XMLAttribute::Value() const { return static_cast<const AttrData*>(this)->value.c_str(); }
const char* XMLElement::Attribute(const char* n, const char* v) const
{
  for (const AttrData* a = static_cast<const ElmData*>(this)->attr; a; a = a->link)
    if (a->name == n) return !v || a->value == v ? a->value.c_str() : nullptr;
  return nullptr;
}
const char* XMLElement::GetText() const
{
  return _firstChild && _firstChild->ToText() ? _firstChild->Value() : nullptr;
}

}
