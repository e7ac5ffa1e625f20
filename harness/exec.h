// Pure executor: reads one case per line, executes it against the library's public API and prints what it observed.
//   in : [["op",[ints],[ints]...],...]        one JSON line per case; every argument is a list of ints
//   out: [[[ints],[ints]...],...]             one JSON line per case; every result is a list of ints
// Everything is a list of lists of small ints (TLC's ints are 32 bit): a word is 4 bytes, a string is its bytes.
// No judgement is made here: the TLA+ specification decides.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>

using L    = std::vector<long long>;
using Args = std::vector<L>;
using Res  = std::vector<L>;
using Fn   = std::function<void(const Args&, Res&)>;

inline std::map<std::string, Fn>& ops()
{
    static std::map<std::string, Fn> m;
    return m;
}
struct Op
{
    Op(const char* n, Fn f) { ops()[n] = std::move(f); }
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define OP(name) static Op CAT(op_, __COUNTER__)(name, [](const Args& a, Res& r) { (void)a; (void)r;
#define END });

void reset_case(); // provided by the driver: drop all objects of the previous case

inline uint32_t W(const L& l, size_t at = 0)
{
    return (uint32_t(l.at(at)) << 24) | (uint32_t(l.at(at + 1)) << 16) | (uint32_t(l.at(at + 2)) << 8) |
           uint32_t(l.at(at + 3));
}
inline L bytes4(uint32_t v) { return { (v >> 24) & 0xFF, (v >> 16) & 0xFF, (v >> 8) & 0xFF, v & 0xFF }; }
inline void put(L& l, uint32_t v)
{
    for (auto b : bytes4(v))
        l.push_back(b);
}
inline L S(const std::string& s)
{
    L l;
    for (unsigned char c : s)
        l.push_back(c);
    return l;
}
inline std::string str(const L& l)
{
    std::string s;
    for (auto c : l)
        s.push_back(char(c));
    return s;
}
inline std::vector<uint8_t> vec(const L& l)
{
    std::vector<uint8_t> v;
    for (auto c : l)
        v.push_back(uint8_t(c));
    v.shrink_to_fit();
    return v;
}

struct Parser
{
    const char* p;
    void        ws() { while (*p == ' ' || *p == ',') ++p; }
    L           list()
    {
        L l;
        ++p;
        for (ws(); *p != ']'; ws())
        {
            if (*p != '-' && (*p < '0' || *p > '9'))
            {
                fprintf(stderr, "bad input near %.20s\n", p);
                exit(3);
            }
            l.push_back(strtoll(p, const_cast<char**>(&p), 10));
        }
        ++p;
        return l;
    }
};

// one case: what it observed
inline std::string run_line(const std::string& line)
{
    Parser      P{ line.c_str() + 1 };
    std::string out   = "[";
    bool        first = true;
    for (P.ws(); *P.p == '['; P.ws())
    {
        ++P.p;
        P.ws();
        const char* e = strchr(P.p + 1, '"');
        std::string name(P.p + 1, e);
        P.p = e + 1;
        Args a;
        for (P.ws(); *P.p == '['; P.ws())
            a.push_back(P.list());
        ++P.p; // ]
        auto it = ops().find(name);
        if (it == ops().end())
        {
            fprintf(stderr, "unknown op %s\n", name.c_str());
            exit(3);
        }
        Res r;
        it->second(a, r);
        out += first ? "[" : ",[";
        first = false;
        bool f1 = true;
        for (auto& l : r)
        {
            out += f1 ? "[" : ",[";
            f1 = false;
            bool f2 = true;
            for (auto v : l)
            {
                if (!f2)
                    out += ',';
                f2 = false;
                out += std::to_string(v);
            }
            out += ']';
        }
        out += ']';
    }
    return out + "]\n";
}

inline int run_main()
{
    std::string line;
    while (std::getline(std::cin, line))
    {
        reset_case();
        const auto out = run_line(line);
        fwrite(out.data(), 1, out.size(), stdout);
        fflush(stdout);
    }
    reset_case();
    return 0;
}
