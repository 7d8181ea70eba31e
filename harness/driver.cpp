// Conformance driver: performs commands of the GBTL abstract machine on the
// real library and records what happened, one JSON object per line.
//
//   driver gen <profile.json> <seed> <first-script> <n-scripts>   random scripts
//   driver play <commands.ndjson>                                 given scripts
//
// A script starts with an "init" record.  Every record carries the command,
// "ret" ("ok" or the exception's name), "s" (scalar result) and "w": the
// observed content of every object whose observation changed, and of the
// output.  Nothing here decides whether the library is right.
#include <csignal>
#include <cstdio>
#include <cstring>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unistd.h>
#include "core.hpp"
#include "cont.hpp"

std::map<std::string, Exec> &registry() { static std::map<std::string, Exec> r; return r; }

//------------------------------------------------------------------ perform
struct Machine
{
    World w;
    std::map<std::string, std::string> last;      // id -> last observation
    std::map<std::string, Val> view;              // id -> last observation
    std::ostream &out;
    Machine(std::ostream &o) : out(o) {}

    void look(Val &ws, std::string const &must)
    {
        for (auto const &p : w.info)
        {
            Val v = observe(w, p.first);
            std::string t = v.dump();
            if (p.first == must || last[p.first] != t)
            {
                last[p.first] = t; view[p.first] = v; ws.a.push_back(v);
            }
        }
    }

    std::string perform(Val c)
    {
        std::string const op = c.str("op");
        long long s = 0;
        std::string ret = "ok", must = c.has("o") ? c.str("o") : "";
        // The command is flushed first: if the library crashes, it is known where.
        current() = c.dump();
        alarm(30);
        if (op == "init")
        {
            w.clear(); last.clear(); view.clear();
            for (auto const &o : c.at("objs").a) new_object(w, o.str("id"), o);
        }
        else if (op == "new")
            new_object(w, c.str("o"), c);
        else
        {
            auto it = registry().find(op + "/" + c.str("ts"));
            if (it == registry().end())
                throw std::runtime_error("no executor for " + op + "/" + c.str("ts"));
            try { it->second(w, c, s); }
            catch (grb::DimensionException const &) { ret = "DimensionException"; }
            catch (grb::IndexOutOfBoundsException const &) { ret = "IndexOutOfBoundsException"; }
            catch (grb::InvalidIndexException const &) { ret = "InvalidIndexException"; }
            catch (grb::InvalidValueException const &) { ret = "InvalidValueException"; }
            catch (grb::NoValueException const &) { ret = "NoValueException"; }
            catch (grb::PanicException const &) { ret = "PanicException"; }
            catch (std::bad_alloc const &) { ret = "std::bad_alloc"; }
            catch (std::exception const &) { ret = "std::exception"; }
        }
        Val ws = Val::arr();
        if (ret != "ok") must = "";
        look(ws, w.info.count(must) ? must : "");
        current().clear();
        c.set("ret", ret); c.set("s", s); c.set("w", ws);
        out << c.dump() << "\n";
        return ret;
    }
    static std::string &current() { static std::string s; return s; }
};

extern "C" void on_crash(int sig)
{
    // Report the command that was running when the library crashed.
    std::string const &s = Machine::current();
    std::cout.flush();
    char head[64];
    int n = snprintf(head, sizeof head, "{\"crash\":%d,\"cmd\":", sig);
    if (write(1, head, n) < 0) _exit(3);
    if (s.empty()) { if (write(1, "0", 1) < 0) _exit(3); }
    else if (write(1, s.data(), s.size()) < 0) _exit(3);
    if (write(1, "}\n", 2) < 0) _exit(3);
    _exit(0);
}

//------------------------------------------------------------------ generate
struct Rng
{
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31); }
    int below(int n) { return (int)(next() % (uint64_t)n); }
    int range(int a, int b) { return a + below(b - a + 1); }
    bool p(int percent) { return below(100) < percent; }
    template <class V> auto const &pick(V const &v) { return v[below((int)v.size())]; }
};

struct TypeInfo { std::string n, C, M, A, B, D1, D2, D3, Q1, Q2, Q3, U1, U2, S; };
template <class T> TypeInfo ti()
{
    return { T::n, Dom<typename T::C>::n, Dom<typename T::M>::n, Dom<typename T::A>::n,
             Dom<typename T::B>::n, Dom<typename T::D1>::n, Dom<typename T::D2>::n,
             Dom<typename T::D3>::n, Dom<typename T::Q1>::n, Dom<typename T::Q2>::n,
             Dom<typename T::Q3>::n, Dom<typename T::U1>::n, Dom<typename T::U2>::n,
             Dom<typename T::S>::n };
}
static std::vector<TypeInfo> const TYPES = { ti<T_I>(), ti<T_B>(), ti<T_U>(), ti<T_X1>(),
                                             ti<T_X2>(), ti<T_X3>(), ti<T_X4>(),
                                             ti<T_L>() };

using Strs = std::vector<std::string>;

struct Gen
{
    Rng r;
    Machine &m;
    Strs ops;                       // weighted
    Strs doms;                      // for container commands
    std::vector<TypeInfo> types;
    int lo, hi, len, alias, reuse, err, nomask, noacc, shared, cells;
    std::vector<int> dims, dimset;
    TypeInfo T;
    int serial = 0;
    std::set<std::string> retired;

    Gen(Machine &mm, Val const &p) : m(mm)
    {
        for (auto const &kv : p.at("ops").o)
            for (int k = 0; k < kv.second.i; ++k) ops.push_back(kv.first);
        for (auto const &t : p.at("ts").a)
            for (auto const &x : TYPES) if (x.n == t.s) types.push_back(x);
        if (p.has("doms")) for (auto const &t : p.at("doms").a) doms.push_back(t.s);
        else doms = { "i32" };
        auto num = [&](char const *k, int d) { return p.has(k) ? (int)p.num(k) : d; };
        lo = num("lo", 1); hi = num("hi", 4); len = num("len", 25); alias = num("alias", 20);
        reuse = num("reuse", 70); err = num("err", 5); nomask = num("nomask", 25);
        noacc = num("noacc", 50); shared = num("shared", 30); cells = num("cells", 1 << 30);
        if (p.has("dimset")) for (auto const &d : p.at("dimset").a) dimset.push_back((int)d.i);
    }

    long long value(std::string const &d)
    {
        if (d == "bool") return r.below(2);
        if (d == "u8") return r.p(20) ? 0 : r.p(10) ? r.range(200, 255) : r.range(0, 9);
        if (d == "f64") return r.p(20) ? 0 : 8 * r.range(-9, 9);
        if (d == "i8" && r.p(8)) return r.range(-128, 127);
        return r.p(20) ? 0 : r.range(-5, 6);
    }
    Val vec_x(std::string const &d, int n, int density)
    {
        Val x = Val::arr();
        for (int i = 0; i < n; ++i) x.a.emplace_back(r.p(density) ? value(d) : NONE);
        return x;
    }
    int density() { static int const D[] = { 0, 30, 50, 50, 70, 85, 100 }; return D[r.below(7)]; }
    int dim() { return r.pick(dims); }
    std::string how()
    {
        static Strs const H = { "set", "build", "rbuild", "full", "grow", "clear" };
        return r.pick(H);
    }
    std::string fresh() { return "o" + std::to_string(serial++); }

    bool nice(Val const &o)
    {
        std::string const &d = o.str("d");
        auto ok = [&](Val const &row) {
            for (auto const &v : row.a)
            {
                if (v.i == NONE) continue;
                if (d == "f64") { if (v.i % 8 || std::llabs(v.i) > 40 * SCALE) return false; }
                else if (d != "u8" && d != "bool" && d != "i8" && std::llabs(v.i) > 40) return false;
            }
            return true; };
        if (o.str("k") == "V") return ok(o.at("x"));
        for (auto const &row : o.at("x").a) if (!ok(row)) return false;
        return true;
    }
    void make(Val o)
    {
        Val c = Val::obj();
        c.set("op", "new"); c.set("o", o.str("id")); c.set("k", o.str("k")); c.set("d", o.str("d"));
        c.set("x", o.at("x")); c.set("how", how());
        m.perform(c);
    }
    // Some vector of domain d and size n; prefer (alias%) the object `like`.
    std::string vec(std::string const &d, int n, std::string const &like = "", int al = -1)
    {
        if (al < 0) al = alias;
        if (!like.empty() && r.p(al))
        {
            auto it = m.view.find(like);
            if (it != m.view.end() && it->second.str("k") == "V" && it->second.str("d") == d &&
                (int)it->second.at("x").a.size() == n) return like;
        }
        if (r.p(reuse))
        {
            Strs c;
            for (auto const &p : m.view)
                if (!retired.count(p.first) && p.second.str("k") == "V" && p.second.str("d") == d &&
                    (int)p.second.at("x").a.size() == n) c.push_back(p.first);
            if (!c.empty()) return r.pick(c);
        }
        Val o = Val::obj(); std::string id = fresh();
        o.set("id", id); o.set("k", "V"); o.set("d", d); o.set("x", vec_x(d, n, density()));
        make(o);
        return id;
    }
    std::string mat(std::string const &d, int nr, int nc, std::string const &like = "", int al = -1)
    {
        if (al < 0) al = alias;
        auto fits = [&](Val const &v) {
            return v.str("k") == "M" && v.str("d") == d && (int)v.at("x").a.size() == nr &&
                   (int)v.at("x").a[0].a.size() == nc; };
        if (!like.empty() && r.p(al))
        {
            auto it = m.view.find(like);
            if (it != m.view.end() && fits(it->second)) return like;
        }
        if (r.p(reuse))
        {
            Strs c;
            for (auto const &p : m.view)
                if (!retired.count(p.first) && fits(p.second)) c.push_back(p.first);
            if (!c.empty()) return r.pick(c);
        }
        Val o = Val::obj(); std::string id = fresh();
        o.set("id", id); o.set("k", "M"); o.set("d", d);
        Val x = Val::arr(); int den = density();
        for (int i = 0; i < nr; ++i) x.a.push_back(vec_x(d, nc, r.p(15) ? 0 : r.p(15) ? 100 : den));
        o.set("x", x);
        make(o);
        return id;
    }

    Val op3(std::string const &f, std::string const &a, std::string const &b, std::string const &c)
    {
        Val v = Val::obj(); v.set("f", f);
        Val d = Val::arr(); d.a = { Val(a), Val(b), Val(c) };
        v.set("d", d);
        return v;
    }
    bool isf(std::string const &d) { return d == "f64"; }
    // any binary operator over the multiply domains
    Val mul()
    {
        static Strs const F = { "plus","minus","times","min","max","first","second","lor","land",
            "lxor","lxnor","eq","ne","gt","lt","ge","le","lin","lin","minus","first","second","times" };
        return op3(r.pick(F), T.D1, T.D2, T.D3);
    }
    Val logical_mul()
    {
        static Strs const F = { "lor","land","lxor","lxnor","eq","ne","gt","lt","ge","le" };
        return op3(r.pick(F), T.D1, T.D2, T.D3);
    }
    // a semiring: additive monoid and multiply such that nothing overflows and
    // the additive operator is associative and commutative on what it sees
    void semiring(Val &c)
    {
        static Strs const LA = { "lor", "land", "lxor", "lxnor", "times", "plus", "min", "max" };
        static Strs const NA = { "plus", "plus", "min", "max" };
        if (T.D3 == "bool")
        {
            static Strs const BA = { "lor", "land", "lxor", "lxnor", "eq", "min", "max", "plus", "times" };
            c.set("add", op3(r.pick(BA), T.D3, T.D3, T.D3)); c.set("mul", mul());
        }
        else if (r.p(20))
        { c.set("mul", logical_mul()); c.set("add", op3(r.pick(LA), T.D3, T.D3, T.D3)); }
        else
        { c.set("mul", mul()); c.set("add", op3(r.pick(NA), T.D3, T.D3, T.D3)); }
    }
    Val monoid()
    {
        static Strs const BA = { "lor", "land", "lxor", "lxnor", "eq", "min", "max" };
        static Strs const NA = { "plus", "plus", "min", "max" };
        return op3(T.D3 == "bool" ? r.pick(BA) : r.pick(NA), T.D3, T.D3, T.D3);
    }
    Val acc()
    {
        static Strs const F = { "plus","minus","times","min","max","first","second","lor","land",
            "lxor","eq","ne","gt","le","lin","plus","minus","second" };
        if (r.p(noacc)) return op3("no", "i32", "i32", "i32");
        return op3(r.pick(F), T.Q1, T.Q2, T.Q3);
    }
    void write_part_v(Val &c, int n)
    {
        static Strs const K = { "val", "comp", "str", "scomp" };
        c.set("mk", "none");
        if (!r.p(nomask))
        {
            c.set("mk", r.pick(K));
            c.set("m", vec(T.M, bad() ? n + 1 : n, c.str("o")));
        }
        else c.set("m", "");
        c.set("acc", acc()); c.set("z", r.p(50) ? "merge" : "replace");
    }
    void write_part_m(Val &c, int nr, int nc)
    {
        static Strs const K = { "val", "comp", "str", "scomp" };
        c.set("mk", "none");
        if (!r.p(nomask))
        {
            c.set("mk", r.pick(K));
            if (bad()) { if (r.p(50)) ++nr; else ++nc; }
            c.set("m", mat(T.M, nr, nc, c.str("o")));
        }
        else c.set("m", "");
        c.set("acc", acc()); c.set("z", r.p(50) ? "merge" : "replace");
    }
    bool want_err = false;
    bool bad() { return want_err && r.p(35); }
    int off(int n) { return bad() ? (n > 1 && r.p(50) ? n - 1 : n + 1) : n; }

    Val ix_all() { Val v = Val::obj(); v.set("k", "all"); return v; }
    Val ix_list(std::vector<long long> const &l)
    { Val v = Val::obj(); v.set("k", "list"); v.set("v", js::nums(l)); return v; }
    // indices into 0..n-1
    std::vector<long long> some_indices(int n, bool distinct, int len)
    {
        std::vector<long long> p, l;
        for (int i = 0; i < n; ++i) p.push_back(i);
        for (int i = n - 1; i > 0; --i) std::swap(p[i], p[r.below(i + 1)]);
        for (int k = 0; k < len; ++k) l.push_back(distinct ? p[k] : r.below(n));
        if (r.p(25)) std::sort(l.begin(), l.end());
        if (bad() && len) l[r.below(len)] = n + r.below(2);
        return l;
    }
    // index set; returns its length through len
    Val ix(int n, bool distinct, int &len, int kind = -1)
    {
        if (kind < 0) kind = r.below(4);
        if (kind == 0) { len = n; return ix_all(); }
        if (kind == 1)
        {
            Val v = Val::obj(); v.set("k", "rng");
            int b = r.below(n), e = r.range(b + 1, n);
            if (bad()) { e = n + 1; }
            v.set("b", b); v.set("e", e); len = e - b; return v;
        }
        len = distinct ? r.range(1, n) : r.range(1, n + 1);
        return ix_list(some_indices(n, distinct, len));
    }
    void ix2(Val &c, int nr, int nc, bool distinct, int &lr, int &lc)
    {
        switch (r.below(6))
        {
        case 0: c.set("ri", ix(nr, distinct, lr, 0)); c.set("ci", ix(nc, distinct, lc, 0)); break;
        case 1: c.set("ri", ix(nr, distinct, lr, 0)); c.set("ci", ix(nc, distinct, lc, 2)); break;
        case 2: c.set("ri", ix(nr, distinct, lr, 2)); c.set("ci", ix(nc, distinct, lc, 0)); break;
        case 3: c.set("ri", ix(nr, distinct, lr, 1)); c.set("ci", ix(nc, distinct, lc, 1)); break;
        default: c.set("ri", ix(nr, distinct, lr, 2)); c.set("ci", ix(nc, distinct, lc, 2)); break;
        }
    }
    // first pick dims of an existing object of the domain now and then
    void shape_m(std::string const &d, int &nr, int &nc)
    {
        nr = dim(); nc = r.p(30) ? nr : dim();
        (void)d;
    }

    // One random command; performs whatever it needs to set the stage.
    void step()
    {
        std::string op = r.pick(ops);
        T = r.pick(types);
        want_err = r.p(err);
        Val c = Val::obj();
        c.set("op", op); c.set("ts", T.n);
        c.set("ta", false); c.set("tb", false);
        int n = dim(), k = dim(), l = dim();
        if (r.p(35)) n = k = l;
        for (int t = 0; t < 60 && (n * k > cells || k * l > cells || n * l > cells || n * k * l > 8 * cells); ++t)
            n = dim(), k = dim(), l = dim();
        if (n * k > cells || k * l > cells || n * l > cells || n * k * l > 8 * cells) n = k = l = 2;
        bool ta = r.p(40), tb = r.p(40);
        auto A = [&](int nr, int nc, std::string const &like) {
            nr = off(nr); nc = off(nc);
            c.set("ta", ta); c.set("a", ta ? mat(T.A, nc, nr, like) : mat(T.A, nr, nc, like)); };
        auto B = [&](int nr, int nc, std::string const &like) {
            nr = off(nr); nc = off(nc);
            c.set("tb", tb); c.set("b", tb ? mat(T.B, nc, nr, like) : mat(T.B, nr, nc, like)); };
        auto O_m = [&](int nr, int nc) { c.set("o", mat(T.C, nr, nc)); };
        auto O_v = [&](int nn) { c.set("o", vec(T.C, nn)); };

        if (op == "mxm")
        {
            O_m(n, l); A(n, k, c.str("o")); B(k, l, r.p(shared) ? c.str("a") : c.str("o")); semiring(c); write_part_m(c, n, l);
        }
        else if (op == "mxv")
        { O_v(n); A(n, k, ""); c.set("b", vec(T.B, off(k), c.str("o"))); semiring(c); write_part_v(c, n); }
        else if (op == "vxm")
        { O_v(n); c.set("a", vec(T.A, off(k), c.str("o"))); B(k, n, ""); semiring(c); write_part_v(c, n); }
        else if (op == "eaddv" || op == "emulv")
        {
            O_v(n); c.set("a", vec(T.A, off(n), c.str("o")));
            c.set("b", vec(T.B, off(n), r.p(50) ? c.str("o") : c.str("a"))); c.set("mul", mul()); write_part_v(c, n);
        }
        else if (op == "eaddm" || op == "emulm")
        {
            O_m(n, k); A(n, k, c.str("o")); B(n, k, r.p(50) ? c.str("o") : c.str("a")); c.set("mul", mul());
            write_part_m(c, n, k);
        }
        else if (op == "applyv" || op == "bind1v" || op == "bind2v")
        {
            O_v(n); c.set("a", vec(T.A, off(n), c.str("o")));
            unary_or_bound(c, op); write_part_v(c, n);
        }
        else if (op == "applym" || op == "bind1m" || op == "bind2m")
        { O_m(n, k); A(n, k, c.str("o")); unary_or_bound(c, op); write_part_m(c, n, k); }
        else if (op == "reducemv")
        {
            O_v(n); A(n, k, ""); c.set("add", monoid()); c.set("bop", r.p(40)); write_part_v(c, n);
        }
        else if (op == "reducevs" || op == "reducems")
        {
            if (op == "reducevs") c.set("a", vec(T.A, n)); else c.set("a", mat(T.A, n, k));
            c.set("add", monoid());
            std::string f = c.at("add").str("f");
            if (isf(T.D3) && (f == "min" || f == "max")) c.set("add", op3(f = "plus", T.D3, T.D3, T.D3));
            if (f == "min" || f == "max")
            {
                static Strs const F = { "first", "second", "min", "max", "no" };
                std::string g = r.pick(F);
                c.set("acc", g == "no" ? op3("no", "i32", "i32", "i32") : op3(g, T.Q1, T.Q2, T.Q3));
            }
            else c.set("acc", acc());
            c.set("v", value(T.S)); c.set("vd", T.S);
        }
        else if (op == "transpose")
        { O_m(n, k); ta = r.p(40); A(k, n, c.str("o")); write_part_m(c, n, k); }
        else if (op == "kron")
        {
            n = r.range(1, 3); k = r.range(1, 3); l = r.range(1, 2); int q = r.range(1, 3);
            O_m(n * l, k * q); A(n, k, c.str("o")); B(l, q, c.str("o")); c.set("mul", mul()); write_part_m(c, n * l, k * q);
        }
        else if (op == "extractv")
        {
            int len; c.set("ri", ix(k, false, len));
            O_v(off(len)); c.set("a", vec(T.A, k, c.str("o"))); write_part_v(c, m.view[c.str("o")].at("x").a.size());
        }
        else if (op == "extractm")
        {
            int lr, lc; ix2(c, n, k, false, lr, lc);
            O_m(off(lr), off(lc)); bool e = want_err; want_err = false; A(n, k, c.str("o")); want_err = e;
            Val const &x = m.view[c.str("o")].at("x");
            write_part_m(c, x.a.size(), x.a[0].a.size());
        }
        else if (op == "extractcol")
        {
            int len; c.set("ri", ix(n, false, len));
            O_v(off(len)); bool e = want_err; want_err = false; A(n, k, ""); want_err = e;
            c.set("i", bad() ? k + r.below(2) : r.below(k));
            write_part_v(c, m.view[c.str("o")].at("x").a.size());
        }
        else if (op == "assignv")
        {
            int len; O_v(n); c.set("ri", ix(n, true, len));
            c.set("a", vec(T.A, off(len), c.str("o"))); write_part_v(c, n);
        }
        else if (op == "assignm")
        {
            int lr, lc; O_m(n, k); ix2(c, n, k, true, lr, lc);
            A(lr, lc, c.str("o")); write_part_m(c, n, k);
        }
        else if (op == "assigncol" || op == "assignrow")
        {
            int len, d = op == "assigncol" ? n : k, e = op == "assigncol" ? k : n;
            O_m(n, k); c.set("ri", ix(d, true, len)); c.set("a", vec(T.A, off(len)));
            c.set("i", bad() ? e + r.below(2) : r.below(e)); write_part_v(c, d);
        }
        else if (op == "assigncv")
        {
            O_v(n); c.set("ri", const_ix(n)); c.set("v", value(T.S)); c.set("vd", T.S); write_part_v(c, n);
        }
        else if (op == "assigncm")
        {
            int lr, lc;
            O_m(n, k);
            switch (r.below(5))
            {
            case 0: ix2(c, n, k, false, lr, lc); break;
            case 1: c.set("ri", ix_all()); c.set("ci", const_list(k)); break;
            case 2: c.set("ri", const_list(n)); c.set("ci", ix_all()); break;
            default: c.set("ri", const_list(n)); c.set("ci", const_list(k)); break;
            }
            c.set("v", value(T.S)); c.set("vd", T.S); write_part_m(c, n, k);
        }
        else { container(c, op); return; }
        commit(c);
    }
    Val const_list(int n)
    {
        int len = bad() ? n + 1 : r.p(8) ? 0 : r.range(1, n);
        return ix_list(some_indices(n, r.p(50) && len <= n, len));
    }
    Val const_ix(int n) { int l; int k = r.below(4); return k < 2 ? ix(n, false, l, k) : const_list(n); }
    void unary_or_bound(Val &c, std::string const &op)
    {
        static Strs const UF = { "ident", "ainv", "abs", "lnot", "inc", "zero", "mod5" };
        if (op[0] == 'a')
        {
            Val u = Val::obj(); u.set("f", r.pick(UF));
            Val d = Val::arr(); d.a = { Val(T.U1), Val(T.U2) };
            u.set("d", d); c.set("un", u);
        }
        else { c.set("mul", mul()); c.set("v", value(T.S)); c.set("vd", T.S); }
    }
    void commit(Val const &c)
    {
        m.perform(c);
        if (c.has("o"))
        {
            std::string id = c.str("o");
            auto it = m.view.find(id);
            if (it != m.view.end() && !nice(it->second)) retire(id);
        }
    }
    // An object whose values grew too large is reset with a small command, so
    // that arithmetic stays exact; otherwise it is not used again.
    void retire(std::string const &id)
    {
        Val const o = m.view[id];
        if (r.p(50)) { retired.insert(id); return; }
        Val c = Val::obj();
        c.set("op", o.str("k") == "V" ? "vclear" : "mclear"); c.set("ts", o.str("d")); c.set("o", id);
        m.perform(c);
    }

    // An existing object of domain d, or a new one.
    std::string any(char kind, std::string const &d)
    {
        Strs c;
        for (auto const &p : m.view)
            if (!retired.count(p.first) && p.second.str("k")[0] == kind && p.second.str("d") == d) c.push_back(p.first);
        if (c.empty() || (c.size() < 5 && r.p(10)))
            {
            int a = dim(), b = dim();
            if (kind == 'M' && a * b > cells) (r.p(50) ? a : b) = 2;
            return kind == 'V' ? vec(d, a) : mat(d, a, b);
        }
        return r.pick(c);
    }
    void container(Val &c, std::string const &op)
    {
        std::string d = r.pick(doms);
        char k = op[0] == 'v' ? 'V' : 'M';
        Val n = Val::obj();
        n.set("op", op); n.set("ts", d); n.set("ta", false); n.set("tb", false);
        c = n;
        auto idx1 = [&](int sz) { return (long long)(bad() ? sz + r.below(3) : r.below(sz)); };
        std::string o = any(k, d);
        Val const x = m.view[o].at("x");
        int nr = (int)x.a.size(), nc = k == 'M' ? (int)x.a[0].a.size() : 0;
        std::string f = op.substr(1);
        c.set("o", o);
        if (f == "set" || f == "rem" || f == "get" || f == "has")
        {
            c.set("i", idx1(nr));
            if (k == 'M') c.set("j", idx1(nc));
            if (f == "set") c.set("v", value(d));
        }
        else if (f == "clear") {}
        else if (f == "resize")
        {
            c.set("n", bad() ? 0 : r.range(lo, hi + 1));
            if (k == 'M') c.set("n2", bad() ? 0 : r.range(lo, hi + 1));
        }
        else if (f == "copy")
        {
            bool want = bad();
            c.set("a", k == 'V' ? vec(d, want ? nr + 1 : nr, o) : mat(d, want ? nr + 1 : nr, nc, o));
        }
        else if (f == "dense") { c.set("vv", vec_x(d, off(nr), 100)); }
        else if (f == "ctor")
        {
            c.set("o", fresh()); c.set("d", d);
            static Strs const H = { "size", "fill", "dense", "densez", "copy" };
            std::string h = r.pick(H);
            if (k == 'M' && h == "fill") h = "densez";
            c.set("how", h);
            int a = dim(), b = dim();
            if (k == 'M' && a * b > cells) (r.p(50) ? a : b) = 2;
            if (h == "size" || h == "fill") { c.set("n", k == 'V' && bad() ? 0 : a); if (k == 'M') c.set("n2", b); }
            if (h == "fill" || h == "densez") c.set("v", value(d));
            if (h == "dense" || h == "densez")
            {
                if (k == 'V') c.set("vv", vec_x(d, a, 100));
                else { Val g = Val::arr(); for (int i = 0; i < a; ++i) g.a.push_back(vec_x(d, b, 100)); c.set("vv", g); }
            }
            if (h == "copy") c.set("a", o);
        }
        else if (f == "view")
        {
            static Strs const H = { "comp", "str", "scomp", "tran" };
            c.set("o", ""); c.set("a", o); c.set("how", H[r.below(k == 'V' ? 3 : 4)]);
        }
        else if (f == "eq")
        {
            c.set("o", ""); c.set("a", o);
            if (r.p(40))           // compare with an equal copy reached differently
            {
                Val q = m.view[o]; q.set("id", fresh()); make(q); c.set("b", q.str("id"));
            }
            else c.set("b", any(k, d));
        }
        else if (f == "build")
        {
            // build is for objects that hold nothing
            Val cl = Val::obj(); cl.set("op", k == 'V' ? "vclear" : "mclear"); cl.set("ts", d); cl.set("o", o);
            m.perform(cl);
            int len = r.range(0, (k == 'V' ? nr : nr * nc) + 1);
            Val ii = Val::arr(), jj = Val::arr(), vv = Val::arr();
            for (int q = 0; q < len; ++q)
            {
                ii.a.emplace_back(idx1(nr)); if (k == 'M') jj.a.emplace_back(idx1(nc));
                vv.a.emplace_back(value(d));
            }
            static Strs const F = { "second", "first", "plus", "minus", "times", "min", "max", "lin" };
            std::string g = r.pick(F);
            bool dflt = r.p(20);
            if (dflt) g = "second";
            if (g == "times" && (d == "f64" || len > 7)) g = "minus";
            if (g == "lin" && len > 16) g = "minus";
            if (bad()) vv.a.emplace_back(value(d));
            c.set("ii", ii); if (k == 'M') c.set("jj", jj);
            c.set("vv", vv); c.set("mul", op3(g, d, d, d)); c.set("dflt", dflt);
            c.set("iter", !dflt && r.p(30) && ii.a.size() == vv.a.size());
        }
        else throw std::runtime_error("command " + op);
        commit(c);
    }

    void script(uint64_t seed)
    {
        r.s = seed * 0xD1342543DE82EF95ull + 12345; r.next();
        dims.clear(); serial = 0; retired.clear();
        for (int k = 0; k < 3; ++k) dims.push_back(dimset.empty() ? r.range(lo, hi) : r.pick(dimset));
        Val c = Val::obj(); c.set("op", "init"); c.set("objs", Val::arr());
        m.perform(c);
        for (int k = 0; k < len; ++k) step();
    }
};

//------------------------------------------------------------------ replay
// Lines of transitions of the specification: "objs" (if present) is the store
// to start from, "cmd" the command, "errs" the errors it must report (any of
// them; none: it must succeed), "x" the content of its output afterwards, "s"
// the scalar it returns.  Prints the transitions the library does not follow.
static bool clean(Val const &o)
{
    long long k = 0;
    if (o.str("k") == "V") { for (auto const &v : o.at("x").a) k += v.i != NONE; }
    else for (auto const &row : o.at("x").a) for (auto const &v : row.a) k += v.i != NONE;
    return !o.has("bad") && !o.has("y") && !o.has("eq") && o.num("n") == k && o.num("t") == k;
}
static int replay(std::istream &in)
{
    static char const *const HOW[] = { "set", "build", "rbuild", "full", "grow", "clear" };
    std::ostringstream sink;
    Machine m(sink);
    std::string line;
    long long n = 0, bad = 0;
    unsigned turn = 0;
    while (std::getline(in, line))
    {
        if (line.empty()) continue;
        Val t = js::parse(line);
        if (t.has("objs"))
        {
            Val c = Val::obj(), os = Val::arr();
            for (auto const &kv : t.at("objs").o)
            {
                Val o = kv.second; o.set("id", kv.first); o.set("how", HOW[turn++ % 6]);
                os.a.push_back(o);
            }
            c.set("op", "init"); c.set("objs", os);
            m.perform(c);
            for (auto const &kv : t.at("objs").o)
                if (m.view[kv.first].at("x").dump() != kv.second.at("x").dump() || !clean(m.view[kv.first]))
                { ++bad; std::cout << "{\"what\":\"init\",\"t\":" << line << "}\n"; }
        }
        if (!t.has("cmd")) continue;
        ++n;
        sink.str("");
        Val const &c = t.at("cmd");
        std::map<std::string, std::string> before = m.last;
        std::string ret = m.perform(c), why;
        Val rec = js::parse(sink.str());
        Val const &errs = t.at("errs");
        if (!errs.a.empty())
        {
            bool in = false;
            for (auto const &e : errs.a) in = in || e.s == ret;
            if (!in) why = "outcome " + ret;
            else if (!rec.at("w").a.empty()) why = "rejected call changed something";
        }
        else if (ret != "ok") why = "outcome " + ret;
        else
        {
            if (t.has("s") && t.num("s") != rec.num("s")) why = "scalar";
            for (auto const &o : rec.at("w").a)
            {
                bool out = t.has("x") && o.str("id") == c.str("o");
                if (!clean(o)) why = "observers disagree";
                else if (!out) why = "changed " + o.str("id");
                else if (o.at("x").dump() != t.at("x").dump()) why = "content";
            }
        }
        if (!why.empty())
        {
            ++bad;
            std::cout << "{\"what\":\"" << why << "\",\"t\":" << line << ",\"got\":" << rec.dump() << "}\n";
            if (bad > 20) break;
        }
    }
    std::cout << "{\"replayed\":" << n << ",\"bad\":" << bad << "}\n";
    return 0;
}

int main(int argc, char **argv)
{
    if (argc < 3) { std::cerr << "usage\n"; return 2; }
    std::ios::sync_with_stdio(false);
    std::string mode = argv[1];
    for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM }) std::signal(s, on_crash);
    Machine m(std::cout);
    std::ifstream in(argv[2]);
    if (mode == "gen")
    {
        std::string t((std::istreambuf_iterator<char>(in)), {});
        Val p = js::parse(t);
        Gen g(m, p);
        uint64_t seed = strtoull(argv[3], 0, 10), first = strtoull(argv[4], 0, 10), n = strtoull(argv[5], 0, 10);
        for (uint64_t k = 0; k < n; ++k) g.script(seed * 1000003 + first + k);
    }
    else if (mode == "replay") return replay(in);
    else
    {
        std::string line;
        while (std::getline(in, line)) if (!line.empty()) m.perform(js::parse(line));
    }
    std::cout.flush();
    return 0;
}
