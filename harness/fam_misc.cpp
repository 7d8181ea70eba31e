// reduce, transpose, kronecker.
#include "core.hpp"
static Register r1("reducemv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    RtMonoid<TS::D3> mon{bin_code(c.at("add").str("f"))};
    RtBin<TS::D3, TS::D3, TS::D3> bop{mon.f};
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          if (c.flag("bop")) grb::reduce(W, M, acc, bop, a, outp_of(c));
          else grb::reduce(W, M, acc, mon, a, outp_of(c)); }); }); });
});
static Register r2("reducevs", TS::n, [](World &w, Val const &c, long long &s) {
    auto &U = w.vec<TS::A>(c.str("a"));
    RtMonoid<TS::D3> mon{bin_code(c.at("add").str("f"))};
    auto val = dec<TS::S>(c.num("v"));
    with_acc<TS>(c, [&](auto acc) { grb::reduce(val, acc, mon, U); });
    s = enc<TS::S>(val);
});
static Register r3("reducems", TS::n, [](World &w, Val const &c, long long &s) {
    auto &A = w.mat<TS::A>(c.str("a"));
    RtMonoid<TS::D3> mon{bin_code(c.at("add").str("f"))};
    auto val = dec<TS::S>(c.num("v"));
    with_acc<TS>(c, [&](auto acc) { grb::reduce(val, acc, mon, A); });
    s = enc<TS::S>(val);
});
static Register r4("transpose", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          grb::transpose(C, M, acc, a, outp_of(c)); }); }); });
});
static Register r5("kron", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    auto &B = w.mat<TS::B>(c.str("b"));
    auto op = mulop<TS>(c);
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_view(B, c.flag("tb"), [&](auto const &b) {
            grb::kronecker(C, M, acc, op, a, b, outp_of(c)); }); }); }); });
});
