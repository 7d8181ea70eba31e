// mxv and vxm.
#include "core.hpp"
static Register r1("mxv", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    auto &U = w.vec<TS::B>(c.str("b"));
    auto sr = semiring<TS>(c);
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          grb::mxv(W, M, acc, sr, a, U, outp_of(c)); }); }); });
});
static Register r2("vxm", TS::n, [](World &w, Val const &c, long long &) {
    auto &W = w.vec<TS::C>(c.str("o"));
    auto &U = w.vec<TS::A>(c.str("a"));
    auto &B = w.mat<TS::B>(c.str("b"));
    auto sr = semiring<TS>(c);
    with_vmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(B, c.flag("tb"), [&](auto const &b) {
          grb::vxm(W, M, acc, sr, U, b, outp_of(c)); }); }); });
});
