// Stand-in for interfaces/json.h (third-party nlohmann::json) and for file streams in the
// symbolic encoding only: a value tree with the operations the repository can reasonably
// use, and files that live in memory.  Native replays use the real library and real files.
#pragma once
#ifndef NLOHMANN_JSON_HPP
#define NLOHMANN_JSON_HPP
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <algorithm>
#include <numeric>
#include <iostream>
#include <sstream>
#include <fstream>
#include <iomanip>
#include <stdexcept>
#include <type_traits>
#include <initializer_list>
namespace nlohmann {
enum class value_t { null, boolean, integer, real, string, array, object };
class json {
public:
  typedef std::vector<json>::iterator iterator; typedef std::vector<json>::const_iterator const_iterator;
  value_t t = value_t::null; int64_t i = 0; double d = 0; std::string s; std::vector<std::string> ks; std::vector<json> v;
  json() {}
  json(std::nullptr_t) {}
  json(bool x) : t(value_t::boolean), i(x) {}
  json(int x) : t(value_t::integer), i(x) {}
  json(unsigned x) : t(value_t::integer), i(x) {}
  json(long x) : t(value_t::integer), i(x) {}
  json(unsigned long x) : t(value_t::integer), i((int64_t)x) {}
  json(long long x) : t(value_t::integer), i(x) {}
  json(float x) : t(value_t::real), d(x) {}
  json(double x) : t(value_t::real), d(x) {}
  json(const char *x) : t(value_t::string), s(x) {}
  json(const std::string &x) : t(value_t::string), s(x) {}
  template <class T> json(const std::vector<T> &x) : t(value_t::array) { for (size_t k = 0; k < x.size(); k++) v.push_back(json(x[k])); }
  template <class T> json(const std::map<std::string, T> &x) : t(value_t::object) { for (auto &p : x) { ks.push_back(p.first); v.push_back(json(p.second)); } }
  template <class T> json(const std::unordered_map<std::string, T> &x) : t(value_t::object) { for (auto &p : x) { ks.push_back(p.first); v.push_back(json(p.second)); } }
  static json array() { json j; j.t = value_t::array; return j; }
  static json object() { json j; j.t = value_t::object; return j; }
  [[noreturn]] static void bad(const char *w) { throw std::runtime_error(w); }
  bool is_null() const { return t == value_t::null; } bool is_array() const { return t == value_t::array; } bool is_object() const { return t == value_t::object; }
  bool is_string() const { return t == value_t::string; } bool is_boolean() const { return t == value_t::boolean; } bool is_number() const { return t == value_t::integer || t == value_t::real; }
  bool is_number_integer() const { return t == value_t::integer; } bool is_number_float() const { return t == value_t::real; }
  int idx(const std::string &k) const { for (size_t n = 0; n < ks.size(); n++) if (ks[n] == k) return (int)n; return -1; }
  json &operator[](const std::string &k) { if (t == value_t::null) t = value_t::object; if (t != value_t::object) bad("json: not an object"); int n = idx(k); if (n < 0) { ks.push_back(k); v.push_back(json()); n = (int)v.size() - 1; } return v[(size_t)n]; }
  const json &operator[](const std::string &k) const { int n = idx(k); if (n < 0) bad("json: no such key"); return v[(size_t)n]; }
  json &operator[](const char *k) { return (*this)[std::string(k)]; }
  const json &operator[](const char *k) const { return (*this)[std::string(k)]; }
  json &operator[](size_t k) { if (t == value_t::null) t = value_t::array; if (t != value_t::array) bad("json: not an array"); while (v.size() <= k) v.push_back(json()); return v[k]; }
  json &operator[](int k) { return (*this)[(size_t)k]; }
  const json &operator[](size_t k) const { return v[k]; }
  const json &operator[](int k) const { return v[(size_t)k]; }
  json &at(const std::string &k) { int n = t == value_t::object ? idx(k) : -1; if (n < 0) bad("json: no such key"); return v[(size_t)n]; }
  const json &at(const std::string &k) const { int n = t == value_t::object ? idx(k) : -1; if (n < 0) bad("json: no such key"); return v[(size_t)n]; }
  json &at(size_t k) { if (t != value_t::array || k >= v.size()) bad("json: no such index"); return v[k]; }
  const json &at(size_t k) const { if (t != value_t::array || k >= v.size()) bad("json: no such index"); return v[k]; }
  size_t count(const std::string &k) const { return t == value_t::object && idx(k) >= 0 ? 1 : 0; }
  bool contains(const std::string &k) const { return count(k) > 0; }
  iterator find(const std::string &k) { int n = idx(k); return n < 0 ? v.end() : v.begin() + n; }
  const_iterator find(const std::string &k) const { int n = idx(k); return n < 0 ? v.end() : v.begin() + n; }
  template <class T> T value(const std::string &k, const T &dflt) const { int n = idx(k); return n < 0 ? dflt : v[(size_t)n].get<T>(); }
  void push_back(const json &x) { if (t == value_t::null) t = value_t::array; if (t != value_t::array) bad("json: not an array"); v.push_back(x); }
  template <class... A> void emplace_back(A &&... a) { push_back(json(std::forward<A>(a)...)); }
  json &operator+=(const json &x) { push_back(x); return *this; }
  template <class T> void emplace(const std::string &k, const T &x) { if (t == value_t::null) t = value_t::object; if (idx(k) < 0) (*this)[k] = json(x); }
  void erase(const std::string &k) { int n = idx(k); if (n >= 0) { ks.erase(ks.begin() + n); v.erase(v.begin() + n); } }
  void clear() { v.clear(); ks.clear(); s.clear(); i = 0; d = 0; }
  size_t size() const { return t == value_t::null ? 0 : (t == value_t::array || t == value_t::object) ? v.size() : 1; }
  bool empty() const { return size() == 0; }
  iterator begin() { return v.begin(); } iterator end() { return v.end(); } const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); }
  json &front() { return v.front(); } json &back() { return v.back(); }
  void conv(bool &x) const { if (t != value_t::boolean) bad("json: not a boolean"); x = i != 0; }
  template <class T> typename std::enable_if<std::is_arithmetic<T>::value>::type conv(T &x) const { if (t == value_t::integer || t == value_t::boolean) x = (T)i; else if (t == value_t::real) x = (T)d; else bad("json: not a number"); }
  void conv(std::string &x) const { if (t != value_t::string) bad("json: not a string"); x = s; }
  void conv(json &x) const { x = *this; }
  template <class T> void conv(std::vector<T> &x) const { if (t != value_t::array) bad("json: not an array"); x.clear(); x.reserve(v.size()); for (auto &e : v) { T y; e.conv(y); x.push_back(y); } }
  template <class T> void conv(std::map<std::string, T> &x) const { if (t != value_t::object) bad("json: not an object"); for (size_t k = 0; k < v.size(); k++) v[k].conv(x[ks[k]]); }
  template <class T> void conv(std::unordered_map<std::string, T> &x) const { if (t != value_t::object) bad("json: not an object"); for (size_t k = 0; k < v.size(); k++) v[k].conv(x[ks[k]]); }
  template <class T> T get() const { T x = T(); conv(x); return x; }
  template <class T> void get_to(T &x) const { conv(x); }
  operator bool() const { return get<bool>(); } operator int() const { return get<int>(); } operator long() const { return get<long>(); } operator unsigned() const { return get<unsigned>(); } operator unsigned long() const { return get<unsigned long>(); } operator double() const { return get<double>(); } operator float() const { return get<float>(); } operator std::string() const { return get<std::string>(); }
  template <class T> operator std::vector<T>() const { return get<std::vector<T>>(); }
  static json parse(const std::string &text);
  std::string dump(int = -1) const;
};
}
// ---- files in memory
struct vs_file_store { std::vector<std::string> names; std::vector<nlohmann::json> trees; std::vector<std::string> texts;
  int find(const std::string &n) const { for (size_t k = 0; k < names.size(); k++) if (names[k] == n) return (int)k; return -1; }
  int open(const std::string &n) { int k = find(n); if (k < 0) { names.push_back(n); trees.push_back(nlohmann::json()); texts.push_back(std::string()); k = (int)names.size() - 1; } trees[(size_t)k] = nlohmann::json(); texts[(size_t)k].clear(); return k; } };
inline vs_file_store &vs_files() { static vs_file_store *s = new vs_file_store(); return *s; }
// text of a dumped tree is represented by a handle to it
inline std::vector<nlohmann::json> &vs_dumps() { static std::vector<nlohmann::json> *v = new std::vector<nlohmann::json>(); return *v; }
inline std::string nlohmann::json::dump(int) const { vs_dumps().push_back(*this); return std::string("\x01json") + (char)('0' + (char)vs_dumps().size()); }
inline nlohmann::json nlohmann::json::parse(const std::string &t) { if (t.size() == 6 && t[0] == 1) return vs_dumps()[(size_t)(t[5] - '1')]; bad("json: text that was not dumped"); }
namespace std {
struct vs_endl_tag {};
class vs_ofstream { int k = -1; bool kept = false; public:   // appending keeps what the file has: a reader then finds the old tree first
  vs_ofstream() {} explicit vs_ofstream(const std::string &n) { open(n); } explicit vs_ofstream(const char *n) { open(n); } template <class M> vs_ofstream(const std::string &n, M m) { open(n, m); }
  void open(const std::string &n) { kept = false; k = vs_files().open(n); } template <class M> void open(const std::string &n, M m) { k = ((int)m & (int)std::ios_base::app) ? vs_files().find(n) : -1; kept = k >= 0 && !vs_files().trees[(size_t)k].is_null(); if (k < 0) open(n); }
  void close() { k = -1; } void flush() {} bool is_open() const { return k >= 0; } bool good() const { return k >= 0; } bool fail() const { return k < 0; } explicit operator bool() const { return k >= 0; }
  vs_ofstream &operator<<(const nlohmann::json &j) { if (k >= 0 && !kept) vs_files().trees[(size_t)k] = j; return *this; }
  vs_ofstream &operator<<(const std::string &t) { if (k >= 0) { if (kept) ; else if (t.size() == 6 && t[0] == 1) vs_files().trees[(size_t)k] = nlohmann::json::parse(t); else vs_files().texts[(size_t)k] += t; } return *this; }
  vs_ofstream &operator<<(const char *t) { return *this << std::string(t); }
  vs_ofstream &operator<<(char) { return *this; }
  vs_ofstream &operator<<(std::_Setw) { return *this; } vs_ofstream &operator<<(std::_Setprecision) { return *this; }
  vs_ofstream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } };
class vs_ifstream { int k = -1; public:
  vs_ifstream() {} explicit vs_ifstream(const std::string &n) { open(n); } explicit vs_ifstream(const char *n) { open(n); } template <class M> vs_ifstream(const std::string &n, M) { open(n); }
  void open(const std::string &n) { k = vs_files().find(n); } void close() {} bool is_open() const { return k >= 0; } bool good() const { return k >= 0; } bool fail() const { return k < 0; } explicit operator bool() const { return k >= 0; }
  vs_ifstream &operator>>(nlohmann::json &j) { if (k < 0) nlohmann::json::bad("json: empty file"); j = vs_files().trees[(size_t)k]; return *this; } };
}
#define ofstream vs_ofstream
#define ifstream vs_ifstream
#endif
