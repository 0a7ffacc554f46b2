// Reference script segmentation over sets of script names (from Scripts.txt and ScriptExtensions.txt).
#pragma once
#include "ucdref.hpp"

#include <bitset>
namespace sref
{
using Set = std::bitset<256>; // indices into names()
inline std::vector<std::string> const& names() { return ucd::script().names; }
inline int idx(std::string const& s)
{
    int k = ucd::script().find(s);
    if (k < 0)
    {
        fprintf(stderr, "script %s\n", s.c_str());
        exit(3);
    }
    return k;
}
inline Set const& wildSet()
{
    static Set s = [] {
        Set x;
        x.set(size_t(idx("Common")));
        x.set(size_t(idx("Inherited")));
        return x;
    }();
    return s;
}
inline bool wild(Set const& s) { return (s & ~wildSet()).none(); }
struct Tables
{
    std::vector<Set> sets;       // distinct sets
    std::vector<uint16_t> of;    // code point -> index
    std::vector<char32_t> first; // a representative of each set
};
inline Tables const& tables()
{
    static Tables t = [] {
        Tables r;
        r.of.resize(ucd::N + 1);
        std::map<std::string, int> seen;
        auto const& ext = ucd::scriptExtensionsListed();
        auto const& sc = ucd::script();
        for (uint32_t c = 0; c <= ucd::N; ++c)
        {
            Set s;
            s.set(size_t(idx(sc[c])));
            if (auto i = ext.find(c); i != ext.end())
                for (auto& n: i->second)
                    s.set(size_t(idx(n)));
            auto [it, isNew] = seen.emplace(s.to_string(), int(r.sets.size()));
            if (isNew)
            {
                r.sets.push_back(s);
                r.first.push_back(c);
            }
            r.of[c] = uint16_t(it->second);
        }
        return r;
    }();
    return t;
}
/// The scripts a character can have: its script and its script extensions.
inline Set const& of(char32_t c) { return tables().sets[tables().of[c < ucd::N ? c : ucd::N]]; }
struct Run
{
    size_t end;
    Set possible; // scripts the run may be named
};
inline Set nameable(Set const& s) { return wild(s) ? s : s & ~wildSet(); }
inline std::vector<Run> runs(std::u32string_view t)
{
    std::vector<Run> r;
    Set cur;
    cur.set(size_t(idx("Common")));
    for (size_t i = 0; i < t.size(); ++i)
    {
        Set const& n = of(t[i]);
        if (wild(n))
        {
            if (wild(cur))
                cur |= n; // Common and Inherited: either may be named
            continue;
        }
        if (wild(cur))
            cur = n;
        else if ((cur & n).any())
            cur &= n;
        else
        {
            r.push_back({ i, nameable(cur) });
            cur = n;
        }
    }
    if (!t.empty())
        r.push_back({ t.size(), nameable(cur) });
    return r;
}
} // namespace sref
