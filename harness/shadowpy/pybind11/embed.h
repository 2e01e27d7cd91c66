// Stand-in for pybind11: option values are held in C++. (The Python interpreter itself is not analysed.)
#pragma once
#include <memory>
#include <string>
#include <type_traits>
#include <map>
#include <vector>
namespace pybind11 {
struct dict;
struct Node;
struct object { std::shared_ptr<Node> n; template <typename T> T cast() const; };
struct dict { std::map<std::string, object> m; };
struct Node { std::vector<double> d; std::vector<long> i; std::string s; std::vector<dict> v; };
template <typename T> T object::cast() const {
  if constexpr (std::is_same_v<T, std::string>) return n->s;
  else if constexpr (std::is_same_v<T, dict>) return n->v[0];
  else if constexpr (std::is_same_v<T, std::vector<dict>>) return n->v;
  else if constexpr (std::is_floating_point_v<T>) return n->d[0];
  else if constexpr (std::is_integral_v<T>) return n->i[0];
  else if constexpr (std::is_same_v<T, std::vector<double>>) return n->d;
  else return T(n->i.begin(), n->i.end());
}
inline object cast(const std::vector<double>& x) { object o{std::make_shared<Node>()}; o.n->d = x; return o; }
inline object cast(double x) { object o{std::make_shared<Node>()}; o.n->d = {x}; return o; }
template <typename I> object cast(const std::vector<I>& x) { object o{std::make_shared<Node>()}; o.n->i.assign(x.begin(), x.end()); return o; }
inline object cast(const char* x) { object o{std::make_shared<Node>()}; o.n->s = x; return o; }
inline object cast(const std::vector<dict>& x) { object o{std::make_shared<Node>()}; o.n->v = x; return o; }
}
