// Minimal JSON reader/writer for the command and trace files.
#pragma once
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace js {

struct Val;
using Arr = std::vector<Val>;

struct Val
{
    enum Kind { NUL, INT, BOOL, STR, ARR, OBJ } kind = NUL;
    long long i = 0;
    bool b = false;
    std::string s;
    Arr a;
    std::vector<std::pair<std::string, Val>> o;   // insertion order kept

    Val() {}
    Val(int v) : kind(INT), i(v) {}
    Val(long v) : kind(INT), i(v) {}
    Val(long long v) : kind(INT), i(v) {}
    Val(unsigned long v) : kind(INT), i((long long)v) {}
    Val(unsigned v) : kind(INT), i(v) {}
    Val(bool v) : kind(BOOL), b(v) {}
    Val(char const *v) : kind(STR), s(v) {}
    Val(std::string v) : kind(STR), s(std::move(v)) {}
    Val(Arr v) : kind(ARR), a(std::move(v)) {}
    static Val obj() { Val v; v.kind = OBJ; return v; }
    static Val arr() { Val v; v.kind = ARR; return v; }

    bool has(std::string const &k) const
    {
        for (auto const &p : o) if (p.first == k) return true;
        return false;
    }
    Val const &at(std::string const &k) const
    {
        for (auto const &p : o) if (p.first == k) return p.second;
        throw std::runtime_error("json: no key " + k);
    }
    Val &set(std::string const &k, Val v)
    {
        kind = OBJ;
        for (auto &p : o) if (p.first == k) { p.second = std::move(v); return *this; }
        o.emplace_back(k, std::move(v));
        return *this;
    }
    std::string const &str(std::string const &k) const { return at(k).s; }
    long long num(std::string const &k) const { return at(k).i; }
    bool flag(std::string const &k) const { return has(k) && at(k).b; }
    std::vector<long long> nums(std::string const &k) const
    {
        std::vector<long long> r;
        for (auto const &v : at(k).a) r.push_back(v.i);
        return r;
    }

    void dump(std::string &out) const
    {
        switch (kind)
        {
        case NUL: out += "null"; break;
        case INT: out += std::to_string(i); break;
        case BOOL: out += b ? "true" : "false"; break;
        case STR: out += '"'; out += s; out += '"'; break;   // plain ASCII only
        case ARR:
            out += '[';
            for (size_t k = 0; k < a.size(); ++k) { if (k) out += ','; a[k].dump(out); }
            out += ']';
            break;
        case OBJ:
            out += '{';
            for (size_t k = 0; k < o.size(); ++k)
            {
                if (k) out += ',';
                out += '"'; out += o[k].first; out += "\":";
                o[k].second.dump(out);
            }
            out += '}';
            break;
        }
    }
    std::string dump() const { std::string r; dump(r); return r; }
};

inline Val nums(std::vector<long long> const &v)
{
    Val r = Val::arr();
    for (auto x : v) r.a.emplace_back(x);
    return r;
}

class Parser
{
    char const *p, *e;
    void ws() { while (p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
    [[noreturn]] void bad() { throw std::runtime_error("json: syntax"); }
public:
    Parser(std::string const &t) : p(t.data()), e(t.data() + t.size()) {}
    Val parse()
    {
        ws();
        if (p >= e) bad();
        if (*p == '{')
        {
            Val v = Val::obj(); ++p; ws();
            if (*p == '}') { ++p; return v; }
            for (;;)
            {
                ws(); Val k = parse(); ws();
                if (k.kind != Val::STR || *p != ':') bad();
                ++p; v.o.emplace_back(k.s, parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == '}') { ++p; return v; }
                bad();
            }
        }
        if (*p == '[')
        {
            Val v = Val::arr(); ++p; ws();
            if (*p == ']') { ++p; return v; }
            for (;;)
            {
                v.a.push_back(parse()); ws();
                if (*p == ',') { ++p; continue; }
                if (*p == ']') { ++p; return v; }
                bad();
            }
        }
        if (*p == '"')
        {
            ++p; std::string s;
            while (p < e && *p != '"') { if (*p == '\\') ++p; s += *p++; }
            ++p; return Val(s);
        }
        if (*p == 't') { p += 4; return Val(true); }
        if (*p == 'f') { p += 5; return Val(false); }
        if (*p == 'n') { p += 4; return Val(); }
        char *end; long long v = strtoll(p, &end, 10);
        if (end == p) bad();
        p = end; return Val(v);
    }
};

inline Val parse(std::string const &t) { return Parser(t).parse(); }

} // namespace js
