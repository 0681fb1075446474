#pragma once
#include <map>
#include <string>
#include <vector>
#include <xmlrpcpp/XmlRpcException.h>
namespace XmlRpc
{
class XmlRpcValue
{
public:
  enum Type { TypeInvalid, TypeBoolean, TypeInt, TypeDouble, TypeString, TypeDateTime, TypeBase64, TypeArray, TypeStruct };
  typedef std::vector<XmlRpcValue> ValueArray;
  typedef std::map<std::string, XmlRpcValue> ValueStruct;
  typedef ValueStruct::iterator iterator;
  typedef ValueStruct::const_iterator const_iterator;
  XmlRpcValue() : t_(TypeInvalid) {}
  XmlRpcValue(bool v) : t_(TypeBoolean), b_(v) {}
  XmlRpcValue(int v) : t_(TypeInt), i_(v) {}
  XmlRpcValue(double v) : t_(TypeDouble), d_(v) {}
  XmlRpcValue(const std::string& v) : t_(TypeString), s_(v) {}
  XmlRpcValue(const char* v) : t_(TypeString), s_(v) {}
  Type getType() const { return t_; }
  const Type& type() const { return t_; }
  bool valid() const { return t_ != TypeInvalid; }
  void clear() { *this = XmlRpcValue(); }
  int size() const
  {
    switch (t_)
    {
      case TypeString: return s_.size();
      case TypeArray: return a_.size();
      case TypeStruct: return m_.size();
      default: break;
    }
    throw XmlRpcException("type error");
  }
  void setSize(int n) { arr(n); a_.resize(n); }
  bool hasMember(const std::string& n) const { return t_ == TypeStruct && m_.count(n); }
  operator bool&() { need(TypeBoolean); return b_; }
  operator int&() { need(TypeInt); return i_; }
  operator double&() { need(TypeDouble); return d_; }
  operator std::string&() { need(TypeString); return s_; }
  operator const bool&() const { chk(TypeBoolean); return b_; }
  operator const int&() const { chk(TypeInt); return i_; }
  operator const double&() const { chk(TypeDouble); return d_; }
  operator const std::string&() const { chk(TypeString); return s_; }
  XmlRpcValue& operator[](int i) { arr(i + 1); return a_.at(i); }
  const XmlRpcValue& operator[](int i) const { chk(TypeArray); if (i < 0 || i >= (int)a_.size()) throw XmlRpcException("range error: array index too large"); return a_[i]; }
  XmlRpcValue& operator[](const std::string& k) { st(); return m_[k]; }
  XmlRpcValue& operator[](const char* k) { st(); return m_[k]; }
  const XmlRpcValue& operator[](const std::string& k) const { chk(TypeStruct); auto it = m_.find(k); if (it == m_.end()) throw XmlRpcException("not found"); return it->second; }
  const XmlRpcValue& operator[](const char* k) const { return (*this)[std::string(k)]; }
  iterator begin() { st(); return m_.begin(); }
  iterator end() { st(); return m_.end(); }
  const_iterator begin() const { chk(TypeStruct); return m_.begin(); }
  const_iterator end() const { chk(TypeStruct); return m_.end(); }
  bool fromXml(const std::string& x, int* off)  // arrays of doubles only
  {
    size_t p = x.find('<', *off);
    if (p == std::string::npos || x.compare(p, 7, "<value>")) return false;
    p = x.find('<', p + 7);
    if (x.compare(p, 8, "<double>") == 0)
    {
      *this = XmlRpcValue(std::stod(x.substr(p + 8)));
      *off = x.find("</value>", p) + 8;
      return true;
    }
    *this = XmlRpcValue();
    *off = x.find("<data>", p) + 6;
    int i = 0;
    while (true)
    {
      p = x.find('<', *off);
      if (x.compare(p, 7, "</data>") == 0) { *off = x.find("</value>", p) + 8; return true; }
      if (!(*this)[i++].fromXml(x, off)) return false;
    }
  }
private:
  void need(Type t) { if (t_ == TypeInvalid) { t_ = t; } chk(t); }
  void chk(Type t) const { if (t_ != t) throw XmlRpcException("type error"); }
  void arr(int n)
  {
    if (t_ == TypeInvalid) { t_ = TypeArray; a_.resize(n); }
    else if (t_ == TypeArray) { if ((int)a_.size() < n) a_.resize(n); }
    else throw XmlRpcException("type error: expected an array");
  }
  void st() { if (t_ == TypeInvalid) t_ = TypeStruct; chk(TypeStruct); }
  Type t_;
  bool b_ = false;
  int i_ = 0;
  double d_ = 0;
  std::string s_;
  ValueArray a_;
  ValueStruct m_;
};
}  // namespace XmlRpc
