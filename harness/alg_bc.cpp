// betweenness centrality
#include "alg.hpp"
#include <algorithms/bc.hpp>
#include <algorithms/appendix_algorithms.hpp>
using namespace alg;
static constexpr double SC = 100000;
template <typename T> static void bc(Val const &c, Val &out, Val &err)
{
    auto g = matrix<T>(c.at("g")); size_t n = g.nrows();
    grb::IndexArrayType s; for (auto x : c.nums("srcs")) s.push_back(x);
    FIELD("batch", return stdvec(algorithms::vertex_betweenness_centrality_batch(g, s), SC););
    FIELD("old", return stdvec(algorithms::vertex_betweenness_centrality_batch_old(g, s), SC););
    FIELD("alt", return stdvec(algorithms::vertex_betweenness_centrality_batch_alt(g, s), SC););
    FIELD("altt", return stdvec(algorithms::vertex_betweenness_centrality_batch_alt_trans(g, s), SC););
    FIELD("altt2", return stdvec(algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(g, s), SC););
    FIELD("B5", grb::Vector<float> d(n); algorithms::BC_update_appendixB5(d, g, s); return vec(d, SC););
    FIELD("B4", grb::Vector<float> d(n); algorithms::BC_appendixB4(d, g, s[0]); return vec(d, SC););
    // these two answer in the scalar type of the graph
    if constexpr (std::is_floating_point_v<T>) FIELD("all", return stdvec(algorithms::vertex_betweenness_centrality(g), SC););
    if constexpr (!std::is_same_v<T, bool>) FIELD("edge", return mat(algorithms::edge_betweenness_centrality(g)););
}
HANDLER("bc")
{
    auto d = c.has("d") ? c.str("d") : std::string("f64");
    if (d == "i32") bc<int32_t>(c, out, err); else if (d == "u8") bc<uint8_t>(c, out, err); else if (d == "f32") bc<float>(c, out, err); else if (d == "bool") bc<bool>(c, out, err); else bc<double>(c, out, err);
}
HANDLER("shapebc")
{
    auto g = matrix<double>(c.at("g"));
    grb::IndexArrayType s; if (c.num("s") > 0) s.push_back(0);
    SHAPE("batch", algorithms::vertex_betweenness_centrality_batch(g, s));
    SHAPE("old", algorithms::vertex_betweenness_centrality_batch_old(g, s));
    SHAPE("alt", algorithms::vertex_betweenness_centrality_batch_alt(g, s));
    SHAPE("altt", algorithms::vertex_betweenness_centrality_batch_alt_trans(g, s));
    SHAPE("altt2", algorithms::vertex_betweenness_centrality_batch_alt_trans_v2(g, s));
    SHAPE("all", algorithms::vertex_betweenness_centrality(g));
    SHAPE("edge", algorithms::edge_betweenness_centrality(g));
}
