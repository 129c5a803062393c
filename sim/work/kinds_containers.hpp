// Containers of all sorts as vectors, in the order in which they give their elements back.
#ifndef KINDS_CONTAINERS_HPP
#define KINDS_CONTAINERS_HPP
#include "kinds.hpp"
namespace {
template <typename T> std::vector<T> flat(std::vector<T>& c) { return c; }
template <typename T> std::vector<T> flat(std::deque<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::list<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::set<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::multiset<T>& c) { return std::vector<T>(c.begin(),c.end()); }
template <typename T> std::vector<T> flat(std::queue<T>& c) { std::vector<T> v; while (!c.empty()) { v.push_back(c.front()); c.pop(); } for (const T& t : v) c.push(t); return v; }
template <typename T> std::vector<T> flat(std::stack<T>& c) { std::vector<T> v; while (!c.empty()) { v.insert(v.begin(),c.top()); c.pop(); } for (const T& t : v) c.push(t); return v; }
template <typename T> std::vector<T> flat(std::priority_queue<T>& c) { std::vector<T> v; while (!c.empty()) { v.insert(v.begin(),c.top()); c.pop(); } for (const T& t : v) c.push(t); return v; }
template <typename T, typename C> std::vector<T> arranged(std::vector<T> v, const C*) { return v; }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::set<T>*) { const std::set<T> s(v.begin(),v.end()); return std::vector<T>(s.begin(),s.end()); }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::multiset<T>*) { std::sort(v.begin(),v.end()); return v; }
template <typename T> std::vector<T> arranged(std::vector<T> v, const std::priority_queue<T>*) { std::sort(v.begin(),v.end()); return v; }
} // namespace
#endif
