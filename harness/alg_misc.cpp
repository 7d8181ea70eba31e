// triangles, trusses, independent sets, spanning trees, flows
#include "alg.hpp"
#include <algorithms/triangle_count.hpp>
#include <algorithms/k_truss.hpp>
#include <algorithms/mis.hpp>
#include <algorithms/mst.hpp>
#include <algorithms/maxflow.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace alg;

template <typename T> static void tri(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows();
    grb::Matrix<T> L(n, n), U(n, n);
    grb::split(g, L, U);
    FIELD("tc", return one(num(algorithms::triangle_count(g))););
    FIELD("lu", return one(num(algorithms::triangle_count_masked(L, U))););
    FIELD("l", return one(num(algorithms::triangle_count_masked(L))););
    FIELD("nt", return one(num(algorithms::triangle_count_masked_noT(L))););
    FIELD("new", return one(num(algorithms::triangle_count_newGBTL(L, U))););
    FIELD("B7", return one(num(algorithms::triangle_count_appendixB7(L))););
}
HANDLER("tri")
{
    auto const &d = c.str("d");
    if (d == "f64") tri<double>(c, out, err); else if (d == "u64") tri<uint64_t>(c, out, err); else tri<int32_t>(c, out, err);
}
template <typename T> static void truss(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows(); IndexType k = c.num("kk");
    auto edges = c.at("edges").a;               // incidence rows, in the order given
    FIELD("inc",
        if (edges.empty()) return Val::arr();
        grb::Matrix<T> E(edges.size(), n);
        for (size_t e = 0; e < edges.size(); ++e) { E.setElement(e, edges[e].a[0].i, T(1)); E.setElement(e, edges[e].a[1].i, T(1)); }
        return mat(algorithms::k_truss(E, k)););
    FIELD("adj", return mat(algorithms::k_truss2(g, k)););
}
HANDLER("truss") { if (c.str("d") == "f64") truss<double>(c, out, err); else truss<int32_t>(c, out, err); }

template <typename T> static void mis(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows();
    Val m = Val::arr(), b = Val::arr(), ids = Val::arr();
    FIELD("mis", for (auto s : c.nums("seeds")) { grb::Vector<bool> v(n); algorithms::mis(g, v, double(s)); m.a.push_back(vec(v));
                                                   ids.a.push_back(stdvec(algorithms::get_vertex_IDs(v))); } return m;);
    FIELD("ids", return ids;);
    FIELD("B6", for (auto s : c.nums("seeds")) { grb::Vector<bool> v(n); algorithms::mis_appendixB6(v, g, double(s)); b.a.push_back(vec(v)); } return b;);
}
HANDLER("mis")
{
    auto const &d = c.str("d");
    if (d == "f64") mis<double>(c, out, err); else if (d == "bool") mis<bool>(c, out, err); else mis<int32_t>(c, out, err);
}
template <typename T> static void mst(Val const &c, Val &out, Val &err)
{
    double sc = std::is_floating_point_v<T> ? 4 : 1;
    auto g = matrix<T>(c.at("g"), sc); size_t n = g.nrows();
    auto par = used<IndexType>(n);
    FIELD("w", return one(num(algorithms::mst(g, par), sc)););
    FIELD("par", return vec(par););
}
HANDLER("mst") { if (c.str("d") == "f64") mst<double>(c, out, err); else mst<int32_t>(c, out, err); }
template <typename T> static void flow(Val const &c, Val &out, Val &err)
{
    double sc = std::is_floating_point_v<T> ? 4 : 1;
    auto g = matrix<T>(c.at("g"), sc);
    FIELD("pr", return one(num(algorithms::maxflow_push_relabel(g, c.num("src"), c.num("sink")), sc)););
    FIELD("ff", return one(num(algorithms::maxflow_ford_fulk(g, c.num("src"), c.num("sink")), sc)););
}
HANDLER("flow") { if (c.str("d") == "f64") flow<double>(c, out, err); else flow<int32_t>(c, out, err); }
HANDLER("bflow") { if (c.str("d") == "f64") flow<double>(c, out, err); else flow<int32_t>(c, out, err); }
template <typename T> static void btri(Val const &c, Val &out, Val &err)
{
    auto g = listed<T>(c); size_t n = g.nrows();
    grb::Matrix<T> L(n, n), U(n, n);
    grb::split(g, L, U);
    FIELD("tc", return one(num(algorithms::triangle_count(g))););
    FIELD("lu", return one(num(algorithms::triangle_count_masked(L, U))););
    FIELD("l", return one(num(algorithms::triangle_count_masked(L))););
    FIELD("nt", return one(num(algorithms::triangle_count_masked_noT(L))););
    FIELD("new", return one(num(algorithms::triangle_count_newGBTL(L, U))););
    FIELD("B7", return one(num(algorithms::triangle_count_appendixB7(L))););
}
HANDLER("btri") { auto const &d = c.str("d"); if (d == "f64") btri<double>(c, out, err); else if (d == "u64") btri<uint64_t>(c, out, err); else btri<int32_t>(c, out, err); }
HANDLER("shapemisc")
{
    auto g = matrix<int32_t>(c.at("g")); size_t s = c.num("s");
    SHAPE("mst", grb::Vector<IndexType> par(s); algorithms::mst(g, par));
    SHAPE("mis", grb::Vector<bool> v(s); algorithms::mis(g, v, 1.0));
}
