// Minimal JSON reader.
#pragma once
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
struct Json {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    double n = 0; long long i = 0; bool b = false;
    std::string s;
    std::vector<Json> a;
    std::vector<std::pair<std::string, Json>> o;
    const Json &operator[](const char *k) const {
        static Json nul;
        for (auto &p : o) if (p.first == k) return p.second;
        return nul;
    }
    const Json &operator[](size_t k) const { static Json nul; return k < a.size() ? a[k] : nul; }
    const Json &operator[](int k) const { return (*this)[size_t(k)]; }
    bool has(const char *k) const { for (auto &p : o) if (p.first == k) return true; return false; }
    size_t size() const { return t == Arr ? a.size() : o.size(); }
    long long num(long long d = 0) const { return t == Num ? i : t == Bool ? (b ? 1 : 0) : d; }
    double real(double d = 0) const { return t == Num ? n : d; }
    const std::string &str() const { return s; }
    std::string str(const char *d) const { return t == Str ? s : std::string(d); }
    bool truth() const { return t == Bool ? b : t == Num ? i != 0 : t != Null; }
    static Json parse(const char *&p);
};
inline Json Json::parse(const char *&p)
{
    auto ws = [&] { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; };
    auto pstr = [&]() -> std::string {
        std::string r; ++p;
        while (*p && *p != '"') {
            if (*p == '\\') {
                ++p;
                switch (*p) {
                case 'n': r += '\n'; break;
                case 't': r += '\t'; break;
                case 'r': r += '\r'; break;
                case 'b': r += '\b'; break;
                case 'f': r += '\f'; break;
                case 'u': { unsigned v = 0; for (int k = 0; k < 4; ++k) { ++p; char c = *p; v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } r += char(v); break; } // latin-1
                default: r += *p;
                }
                ++p;
            } else r += *p++;
        }
        if (*p) ++p;
        return r;
    };
    Json v; ws();
    if (*p == '{') {
        v.t = Obj; ++p; ws();
        while (*p && *p != '}') { ws(); std::string k = pstr(); ws(); if (*p == ':') ++p; v.o.emplace_back(k, parse(p)); ws(); if (*p == ',') ++p; ws(); }
        if (*p) ++p;
    } else if (*p == '[') {
        v.t = Arr; ++p; ws();
        while (*p && *p != ']') { v.a.push_back(parse(p)); ws(); if (*p == ',') ++p; ws(); }
        if (*p) ++p;
    } else if (*p == '"') { v.t = Str; v.s = pstr(); }
    else if (*p == 't') { v.t = Bool; v.b = true; p += 4; }
    else if (*p == 'f') { v.t = Bool; p += 5; }
    else if (*p == 'n') { p += 4; }
    else { char *e; v.t = Num; v.n = strtod(p, &e); v.i = strtoll(p, nullptr, 10); if (e == p) ++e; p = e; }
    return v;
}
