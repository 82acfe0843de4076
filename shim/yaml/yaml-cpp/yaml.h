// Stand-in for yaml-cpp: documents are trees of nodes built by the harness or by the emitter below; text is never
// parsed. What the real library does to a scalar between emitting and loading it (quoting, tags, literal blocks) is
// modelled by Emitter::scalar and was compared with yaml-cpp 0.8 on all short strings over a small alphabet.
#pragma once
#include <exception>
#include <stdexcept>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <sstream>
namespace YAML {
struct NodeType { enum value { Undefined, Null, Scalar, Sequence, Map }; };
class Exception : public std::runtime_error { public: std::string msg; Exception(const std::string& m) : std::runtime_error(m), msg(m) {} };
class RepresentationException : public Exception { public: using Exception::Exception; };
class BadConversion : public RepresentationException { public: BadConversion() : RepresentationException("bad conversion") {} };
class InvalidNode : public RepresentationException { public: InvalidNode() : RepresentationException("invalid node") {} };
class ParserException : public Exception { public: using Exception::Exception; };
class BadFile : public Exception { public: explicit BadFile(const std::string& f = "") : Exception("bad file: " + f) {} };
struct Data; typedef std::shared_ptr<Data> Ptr;
struct iter; struct iter_value;
class Node {
 public:
  Ptr d;
  Node() {}
  Node(Ptr p) : d(p) {}
  inline NodeType::value Type() const;
  bool IsDefined() const { return Type() != NodeType::Undefined; }
  bool IsNull() const { return Type() == NodeType::Null; }
  bool IsScalar() const { return Type() == NodeType::Scalar; }
  bool IsSequence() const { return Type() == NodeType::Sequence; }
  bool IsMap() const { return Type() == NodeType::Map; }
  explicit operator bool() const { return IsDefined() && !IsNull(); }
  bool operator!() const { return !(bool)*this; }
  inline const std::string& Tag() const; inline const std::string& Scalar() const; inline std::size_t size() const;
  template <class T> T as() const { T r; get(r); return r; }
  inline Node operator[](std::size_t i) const; Node operator[](int i) const { return (*this)[(std::size_t)i]; }
  inline Node operator[](const std::string& k) const; Node operator[](const char* k) const { return (*this)[std::string(k)]; }
  inline iter begin() const; inline iter end() const;
  inline void get(std::string& s) const;
};
struct Data { NodeType::value type = NodeType::Null; std::string tag = "?", text; std::vector<Node> keys, vals; };
struct iter_value : Node, std::pair<Node, Node> { iter_value() {} iter_value(Node v) : Node(v) {} iter_value(Node k, Node v) : Node(), std::pair<Node, Node>(k, v) {} };
struct iter { const Data* d; std::size_t i; iter_value operator*() const { return d->type == NodeType::Map ? iter_value(d->keys[i], d->vals[i]) : iter_value(d->vals[i]); } struct Arrow { iter_value v; iter_value* operator->() { return &v; } }; Arrow operator->() const { return Arrow{**this}; } iter& operator++() { i++; return *this; } iter operator++(int) { iter o = *this; i++; return o; } bool operator==(const iter& o) const { return i == o.i; } bool operator!=(const iter& o) const { return i != o.i; } };
typedef iter const_iterator; typedef iter iterator;
inline NodeType::value Node::Type() const { return d ? d->type : NodeType::Null; }
inline const std::string& Node::Tag() const { static std::string e; return d ? d->tag : e; }
inline const std::string& Node::Scalar() const { static std::string e; return d ? d->text : e; }
inline std::size_t Node::size() const { return d && (d->type == NodeType::Sequence || d->type == NodeType::Map) ? d->vals.size() : 0; }
inline void Node::get(std::string& s) const { if (Type() == NodeType::Null) { s = "null"; return; } if (Type() != NodeType::Scalar) throw BadConversion(); s = d->text; }
inline Node Node::operator[](std::size_t i) const { if (Type() == NodeType::Scalar) throw BadConversion(); if (i >= size()) { Node n(std::make_shared<Data>()); n.d->type = NodeType::Undefined; return n; } return d->vals[i]; }
inline Node Node::operator[](const std::string& k) const { for (std::size_t i = 0; d && d->type == NodeType::Map && i < d->keys.size(); i++) if (d->keys[i].d->text == k) return d->vals[i]; Node n(std::make_shared<Data>()); n.d->type = NodeType::Undefined; return n; }
inline iter Node::begin() const { return {d.get(), 0}; }
inline iter Node::end() const { return {d.get(), size()}; }
inline Node scalar(const std::string& t, const std::string& tag = "?") { Ptr p = std::make_shared<Data>(); p->type = NodeType::Scalar; p->tag = tag; p->text = t; return Node(p); }
inline Node seq() { Ptr p = std::make_shared<Data>(); p->type = NodeType::Sequence; return Node(p); }
inline Node map() { Ptr p = std::make_shared<Data>(); p->type = NodeType::Map; return Node(p); }
inline Node null() { return Node(std::make_shared<Data>()); }
inline void put(Node m, const std::string& k, Node v) { m.d->keys.push_back(scalar(k)); m.d->vals.push_back(v); }

inline Node g_file; inline bool g_bad_file = false; inline std::string g_loaded;
inline Node LoadFile(const std::string& f) { g_loaded = f; if (g_bad_file) throw BadFile(f); return g_file; }

enum EMITTER_MANIP { Auto, TagByKind, Newline, EmitNonAscii, EscapeNonAscii, EscapeAsJson, SingleQuoted, DoubleQuoted, Literal, LowerNull, UpperNull, CamelNull, TildeNull, YesNoBool, TrueFalseBool, OnOffBool, UpperCase, LowerCase, CamelCase, LongBool, ShortBool, Dec, Hex, Oct, BeginDoc, EndDoc, BeginSeq, EndSeq, Flow, Block, BeginMap, EndMap, Key, Value, LongKey };
class Emitter {
  std::vector<Node> st_; std::string key_; bool have_key_ = false, nextflow_ = false; std::vector<bool> flow_; bool expect_key_ = false, bad_ = false; EMITTER_MANIP fmt_ = Auto; std::string out_;
  static bool alnum(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
 public:
  Node root;
  Emitter() {} Emitter(const Emitter&) = delete;
  // can the text stand without quotes?
  static bool plain(const std::string& s, bool flow = false) {
    if (s.empty() || s == "~" || s == "null" || s == "Null" || s == "NULL") return false;
    size_t n = s.size(); char c = s[0]; bool ind = c == ',' || c == '[' || c == ']' || c == '{' || c == '}' || c == '#' || c == '&' || c == '*' || c == '!' || c == '|' || c == '>' || c == '\'' || c == '"' || c == '%' || c == '@' || c == '`'; if (ind) return false;
    if ((c == '-' || c == '?' || c == ':') && (n == 1 || s[1] == ' ')) return false;
    if (c == ' ' || s[n - 1] == ' ') return false;
    for (size_t i = 0; i < n; i++) { unsigned char k = s[i]; if (k < 32 || k > 126) return false; if (flow && (k == ',' || k == '[' || k == ']' || k == '{' || k == '}' || k == '?')) return false; if (k == ':' && (i + 1 == n || s[i + 1] == ' ' || (flow && (s[i + 1] == ',' || s[i + 1] == ']' || s[i + 1] == '}')))) return false; if (k == '#' && i > 0 && s[i - 1] == ' ') return false; }
    return true; }
  static Node scalar_(const std::string& s, EMITTER_MANIP f, bool flow = false) {
    // a literal block: reading keeps one final newline; a text with leading blanks or empty lines, or other than printable characters, comes back changed
    if (f == Literal && !flow) { size_t n = s.size(); while (n && s[n - 1] == '\n') n--; std::string t(s, 0, n); if (n) t += '\n'; size_t h = s.find_first_not_of('\n'); bool odd = h != std::string::npos && s[h] == ' '; for (unsigned char k : s) odd |= k == '\r'; if (odd) t += "?"; return YAML::scalar(t, "!"); }
    if (f == DoubleQuoted || f == SingleQuoted) return YAML::scalar(s, "!");
    return plain(s, flow) ? YAML::scalar(s, "?") : YAML::scalar(s, "!"); }
  void enter() { flow_.push_back(nextflow_ || (!flow_.empty() && flow_.back())); nextflow_ = false; }
  void add(Node n) { if (st_.empty()) { root = n; return; } Node t = st_.back(); if (t.IsMap()) { if (!have_key_) { bad_ = true; return; } put(t, key_, n); have_key_ = false; } else t.d->vals.push_back(n); }
  void text(const std::string& s, bool number) { if (bad_) return; EMITTER_MANIP f = fmt_; fmt_ = Auto; if (!st_.empty() && st_.back().IsMap() && !have_key_) { key_ = s; have_key_ = true; return; } add(number ? YAML::scalar(s, "?") : scalar_(s, f, !flow_.empty() && flow_.back())); }
  Emitter& operator<<(EMITTER_MANIP m) {
    switch (m) {
      case BeginMap: { enter(); Node n = map(); add(n); st_.push_back(n); break; }
      case BeginSeq: { enter(); Node n = seq(); add(n); st_.push_back(n); break; }
      case EndMap: case EndSeq: if (st_.empty() || st_.back().IsMap() != (m == EndMap) || have_key_) bad_ = true; else { st_.pop_back(); flow_.pop_back(); } break;
      case Key: case Value: if (st_.empty() || !st_.back().IsMap() || have_key_ != (m == Value)) bad_ = true; break;
      case Literal: case DoubleQuoted: case SingleQuoted: case Auto: fmt_ = m; break;
      case Flow: nextflow_ = true; break; case Block: nextflow_ = false; break;
      default: break;
    }
    return *this; }
  Emitter& operator<<(const std::string& s) { text(s, false); return *this; }
  Emitter& operator<<(const char* s) { text(s, false); return *this; }
  Emitter& operator<<(bool b) { text(b ? "true" : "false", true); return *this; }
  Emitter& operator<<(char c) { text(std::string(1, c), false); return *this; }
  template <class T> Emitter& stream(const T& v) { std::stringstream ss; ss << v; text(ss.str(), true); return *this; }
  Emitter& operator<<(int v) { return stream(v); } Emitter& operator<<(unsigned v) { return stream(v); } Emitter& operator<<(long v) { return stream(v); } Emitter& operator<<(unsigned long v) { return stream(v); }
  Emitter& operator<<(double v) { std::stringstream ss; ss.precision(17); if (v != v) ss << ".nan"; else if (v - v != 0) ss << (v < 0 ? "-.inf" : ".inf"); else ss << v; text(ss.str(), true); return *this; }
  template <class T> Emitter& operator<<(const std::vector<T>& v) { *this << BeginSeq; for (const auto& e : v) *this << (T)e; return *this << EndSeq; }
  bool good() const { return !bad_; } const std::string GetLastError() const { return bad_ ? "error" : ""; }
  // the text of the document: the tree becomes the file's content
  const char* c_str() { if (!bad_ && st_.empty()) { g_file = root; out_ = "<document>"; } else { g_file = null(); out_ = "<broken>"; } return out_.c_str(); }
  std::size_t size() { return std::string(c_str()).size(); }
};
}
