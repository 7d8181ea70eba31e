// mxm for one typeset (-DTS=...): all masks, accumulators and transpositions.
#include "core.hpp"
static Register r1("mxm", TS::n, [](World &w, Val const &c, long long &) {
    auto &C = w.mat<TS::C>(c.str("o"));
    auto &A = w.mat<TS::A>(c.str("a"));
    auto &B = w.mat<TS::B>(c.str("b"));
    auto sr = semiring<TS>(c);
    with_mmask<TS>(w, c, [&](auto const &M) {
      with_acc<TS>(c, [&](auto acc) {
        with_view(A, c.flag("ta"), [&](auto const &a) {
          with_view(B, c.flag("tb"), [&](auto const &b) {
            grb::mxm(C, M, acc, sr, a, b, outp_of(c)); }); }); }); });
});
