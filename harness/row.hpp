// A row of a glyph database as JSON: {n: 22 numbers, a: alternations, z: zone, pz: proportions}
#pragma once
#include "drv.hpp"
#include "ppocr/defined_loader.hpp"

namespace drv {

inline void put(Json & j, unsigned v) { j.u(v); }
inline void put(Json & j, std::vector<unsigned> const & v) { for (auto x : v) j.u(x); }
inline void put(Json & j, ppocr::strategies::zone::value_type const & v) { for (auto x : v) j.u(x); }
inline void put(Json & j, ppocr::strategies::alternations::value_type const & v)
{ for (auto const & x : v) j.b(x.start_contains_letter).u(x.count); }

struct RowParts
{
    std::vector<unsigned> n;
    Json a, z, pz;
    void add(unsigned v) { n.push_back(v); }
    void add(ppocr::strategies::alternations::value_type const & v) { put(a, v); }
    void add(ppocr::strategies::zone::value_type const & v) { put(z, v); }
    void add(std::vector<unsigned> const & v) { put(pz, v); }
    void print(Json & j) const
    {
        j.open('{').key("n").open('[');
        put(j, n);
        j.close(']');
        j.key("a").open('['); j.s += a.s; j.close(']');
        j.key("z").open('['); j.s += z.s; j.close(']');
        j.key("pz").open('['); j.s += pz.s; j.close(']');
        j.close('}');
    }
};

struct RowFn
{
    RowParts & p; std::size_t i;
    template<class Data> void operator()(Data const & d) const { p.add(d[i]); }
};

inline void row(Json & j, ppocr::PpOcrDatas const & d, std::size_t i)
{
    RowParts p;
    ppocr::loader2::apply_from_datas(d, RowFn{p, i});
    p.print(j);
}

// numbers of a text, line by line
inline void lines(Json & j, std::string const & text)
{
    std::istringstream is(text);
    std::string l;
    j.open('[');
    while (std::getline(is, l)) {
        std::istringstream ls(l);
        unsigned long v;
        j.open('[');
        while (ls >> v) j.u(v);
        if (!ls.eof()) j.val(-2);
        j.close(']');
    }
    j.close(']');
}

}
