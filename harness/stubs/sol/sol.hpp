/* Stand-in for sol2, which is not installed here: nested tables of values with
 * the few operations solver.hpp uses. */
#pragma once
#include <map>
#include <type_traits>
#include <memory>
#include <string>
namespace sol {
struct table { };
struct node { std::map<std::string, std::shared_ptr<node>> sub; bool set = false; double num = 0; std::string str; };
struct proxy
{
    std::shared_ptr<node> n;
    proxy operator[](const std::string& k) const { auto& s = n->sub[k]; if (!s) s = std::make_shared<node>(); return proxy{s}; }
    proxy& operator=(const table&) { return *this; }
    proxy& operator=(const std::string& v) { n->set = true; n->str = v; return *this; }
    template<typename T> requires std::is_arithmetic_v<T> proxy& operator=(T v) { n->set = true; n->num = double(v); return *this; }
    bool valid() const { return n->set; }
    std::string get_or(const std::string& d) const { return n->set ? n->str : d; }
    template<typename T> requires std::is_arithmetic_v<T> T get_or(T d) const { return n->set ? T(n->num) : d; }
    operator std::string() const { return n->str; }
};
struct state
{
    proxy root{std::make_shared<node>()};
    proxy operator[](const std::string& k) { return root[k]; }
    table create_table() { return {}; }
};
}
