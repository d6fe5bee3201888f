/* Reader of the JSON that TLC prints: objects, arrays, integers, strings, booleans. */
#pragma once
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
namespace vh {
struct Json
{
    enum K { NUM, STR, ARR, OBJ, BOOL } kind = NUM;
    long n = 0;
    std::string s, text;
    std::vector<Json> a;
    std::map<std::string, Json> o;
    const Json& operator[](const char* k) const { return o.at(k); }
    const Json& operator[](int i) const { return a.at(i); }
    bool has(const char* k) const { return o.count(k); }
    std::vector<long> ints() const { std::vector<long> r; for (auto& x : a) r.push_back(x.n); return r; }
    size_t size() const { return a.size(); }
};
struct JsonReader
{
    const std::string& t;
    size_t i = 0;
    JsonReader(const std::string& x) : t(x) {}
    void ws() { while (i < t.size() && isspace((unsigned char)t[i])) i++; }
    char peek() { ws(); return t.at(i); }
    void eat(char c) { if (peek() != c) throw std::runtime_error(std::string("json: expected ") + c); i++; }
    std::string str() { eat('"'); std::string r; while (t.at(i) != '"') r += t[i++]; i++; return r; }
    Json value()
    {
        Json v;
        char c = peek();
        size_t b = i;
        if (c == '{')
        {
            v.kind = Json::OBJ; i++;
            if (peek() == '}') i++;
            else for (;;) { auto k = str(); eat(':'); v.o[k] = value(); if (peek() == ',') { i++; continue; } eat('}'); break; }
        }
        else if (c == '[')
        {
            v.kind = Json::ARR; i++;
            if (peek() == ']') i++;
            else for (;;) { v.a.push_back(value()); if (peek() == ',') { i++; continue; } eat(']'); break; }
        }
        else if (c == '"') { v.kind = Json::STR; v.s = str(); }
        else if (c == 't') { v.kind = Json::BOOL; v.n = 1; i += 4; }
        else if (c == 'f') { v.kind = Json::BOOL; v.n = 0; i += 5; }
        else { size_t e; v.n = std::stol(t.substr(i, 24), &e); i += e; }
        v.text = t.substr(b, i - b);
        return v;
    }
};
inline Json parse_json(const std::string& t) { JsonReader r(t); return r.value(); }
} // namespace vh
