"""P14: user conversion rules are honoured and composed.  All rule graphs over three user types (every subset of the nine
possible rules, both directions, with and without a foreign-side half) in several declaration orders, user rules over built-in
ones, bounded generic rules x type arguments, conditional rules x configurations; the compiled result against an interpreter of the rules."""
import itertools, json, os, shutil
from common import *
import cppkit

LEVEL = "model_checking"
ASSUMPTIONS = ["three user types per rule graph", "where several chains exist any of them is accepted (a rule for the very type always wins)"]
N = 3
EDGES = [(i, j) for i in range(N) for j in range(N) if i != j] + [(i, None) for i in range(N)]


def paths(edges, s, seen=()):
    """digit strings of all simple chains from node s to the foreign boundary"""
    for e in edges:
        if e[0] == s and e[1] not in seen + (s,):
            d = str(EDGES.index(e) + 1)
            if e[1] is None:
                yield d
            else:
                for p in paths(edges, e[1], seen + (s,)):
                    yield d + p


def scen(k, edges, fmask, inp):
    """rules, Rust types and the class using them: one rule graph"""
    T = ["G%dT%d" % (k, i) for i in range(N)]
    rules = []
    for e in edges:
        d = EDGES.index(e) + 1
        f, arrow = T[e[0]], "<=" if inp else "=>"
        to = "i64" if e[1] is None else T[e[1]]
        get = "$p" if (inp and e[1] is None) else "$p.0"
        val = "%s * 10 + %d" % (get, d)
        res = T[e[0]] + "(%s)" % val if inp else val if e[1] is None else T[e[1]] + "(%s)" % val
        body = "($p:r_type) %s %s %s { $out = %s; };" % (f, arrow, to, res)
        if e[1] is None and fmask >> e[0] & 1:
            F = "G%dF%d" % (k, e[0])
            body = "foreign_code!(module = \"%s.h\"; \"struct %s { int64_t v; };\"); " % (F, F) + body
            body += " ($p:f_type, req_modules = [\"\\\"%s.h\\\"\"]) %s \"%s\" \"%s\";" % (F, arrow, F, "$p.v * 10 + %d" % (d - 7 + 1) if inp else "%s{$p * 10 + %d}" % (F, d - 7 + 1))
        rules.append("foreign_typemap!(%s);\n" % body)
    rust = "".join("pub struct %s(pub i64);\n" % t for t in T)
    return T, rules, rust


def expect(edges, fmask, inp, s):
    out = set()
    for p in paths(edges, s):
        last = int(p[-1]) - 7
        h = p + str(last + 1) if fmask >> last & 1 else p
        out.add(h[::-1] if inp else h)
    direct = (s, None) in edges  # a rule for the very type is used
    if direct:
        p = str(EDGES.index((s, None)) + 1)
        h = p + str(s + 1) if fmask >> s & 1 else p
        out = {h[::-1] if inp else h}
    return out


def graph_units(full):
    k = 0
    for bits in range(1, 1 << len(EDGES)):
        edges = [e for b, e in enumerate(EDGES) if bits >> b & 1]
        terms = sum(1 << e[0] for e in edges if e[1] is None)
        if not terms:
            continue
        for fmask in (0, terms) if not full else [m for m in range(8) if m & ~terms == 0]:
            for inp in (0, 1):
                for order in range(4 if full else 2):
                    k += 1
                    yield k, edges, fmask, inp, order if full else order + (k // 4 % 2) * 2


def unit(u):
    k, edges, fmask, inp, order = u
    T, rules, rust = scen(k, edges, fmask, inp)
    use = [i for i in range(N) if expect(edges, fmask, inp, i)]
    if order & 1:
        rules, use = rules[::-1], use[::-1]
    ms, calls = "", ""
    for i in use:
        if inp:
            ms += " fn ug%d::f%d(a: %s) -> i64;" % (k, i, T[i])
            # the argument type: a foreign struct or a number
            calls += 'chk("%d %d", W%d::f%d(A()));' % (k, i, k, i)
        else:
            ms += " fn ug%d::f%d() -> %s;" % (k, i, T[i])
            calls += 'chk("%d %d", W%d::f%d());' % (k, i, k, i)
    cls = "foreign_class!(class W%d {%s });\n" % (k, ms)
    items = [cls] + rules if order & 2 else rules + [cls]
    mod = "pub mod ug%d { use super::*; %s }\n" % (k, " ".join(("pub fn f%d(a: %s) -> i64 { a.0 }" if inp else "pub fn f%d() -> %s { %s(0) }") % ((i, T[i]) if inp else (i, T[i], T[i])) for i in use))
    return items, rust + mod, calls, use


CPP = """#include <cstdio>
#include <cstdint>
#include <type_traits>
%s
using namespace fg;
struct A { template<class T> operator T() const { if constexpr (std::is_arithmetic_v<T>) return T(0); else return T{0}; } };
static long n_;
static void out(const char *w, long long v) { ++n_; printf("R\\t%%s\\t%%lld\\n", w, v); }
template<class T> static void chk(const char *w, const T &x) { if constexpr (std::is_arithmetic_v<T>) out(w, (long long)x); else out(w, (long long)x.v); }
%s
int main() { %s printf("DONE\\t%%ld\\n", n_); }
"""


def batch(r, tag, us):
    """several rule graphs, their items interleaved, in one description"""
    d = os.path.join(r.work, tag)
    parts = [unit(u) for u in us]
    items = [x for row in itertools.zip_longest(*[p[0] for p in parts]) for x in row if x]
    main = CPP % ("".join('#include "W%d.hpp"\n' % u[0] for u in us), "".join("static void c%d() { %s }\n" % (u[0], p[2]) for u, p in zip(us, parts)), " ".join("c%d();" % u[0] for u in us))
    b = cppkit.build(r, d, "".join(items), "".join(p[1] for p in parts), write(d + "/main.cpp", main), opt="-O0", asan=False)
    p = None if b.problem else run([b.exe], timeout=100)
    if not r.failing_keep:
        shutil.rmtree(d, ignore_errors=True)
    return b, p, parts


def show(u, i):
    k, edges, fmask, inp, order = u
    T, rules, _ = scen(k, edges, fmask, inp)
    return "%s of T%d with the rules %s (order %d)" % ("argument" if inp else "return", i, " ".join(rules).replace("\n", ""), order)


def gkey(u, i):
    return "graph/%s/%s/f%d/%d" % ("in" if u[3] else "out", "".join("%d%s" % (a, "i" if b is None else b) + "." for a, b in u[1]), u[2], i)


def mixed(u, i, g):
    """two or more chains, no rule for the very type, and the trace is one chain's Rust rules with another's foreign rule"""
    k, edges, fmask, inp, order = u
    ps = list(paths(edges, i))
    g = g[::-1] if inp else g
    return (i, None) not in edges and len({p[-1] for p in ps}) > 1 and any(g == p or g[:-1] == p and fmask >> (int(g[-1]) - 1) & 1 and any(q[-1] == str(int(g[-1]) + 6) for q in ps) for p in ps)


def check_graphs(r, full):
    us = list(graph_units(full))
    size = 24
    groups = [us[i::max(1, len(us) // size)] for i in range(max(1, len(us) // size))]

    def one(j):
        g, us = j
        b, p, parts = batch(r, "g%d" % g, us)
        if b.problem and len(us) > 1:  # which of them
            res = []
            for u in us:
                b, p, parts = batch(r, "g%d_%d" % (g, u[0]), [u])
                if b.problem:
                    res.append((u, None, b))
                    if len(res) > 2:
                        break
            return res or [(us[0], None, b)]
        res = []
        got = dict(tuple(l.split("\t")[1:]) for l in p.stdout.splitlines() if l.startswith("R\t"))
        for u, (_, _, _, use) in zip(us, parts):
            for i in use:
                res.append((u, i, got.get("%d %d" % (u[0], i))))
        return res
    for rs in pmap(one, list(enumerate(groups))):
        for u, i, g in rs:
            if i is None:
                r.violation(gkey(u, 9) + "/" + g.kind, "%s\n%s" % (show(u, 0), g.problem))
                continue
            want = expect(u[1], u[2], u[3], i)
            r.state(("g", tuple(u[1]), u[2], u[3], i))
            r.transitions += len(u[1])
            r.traces += 1
            if g is not None and g not in want and mixed(u, i, g):
                r.violation("graph/mixed", "%s: went through the Rust half of one chain and the foreign half of another (%s), expected %s" % (show(u, i), g, " or ".join(sorted(want))))
            elif g not in want:
                r.violation(gkey(u, i), "%s: the value went through %s, expected %s" % (show(u, i), g, " or ".join(sorted(want))))
    # no chain: refused
    jobs = []
    for bits in range(1 << len(EDGES)):
        edges = [e for b, e in enumerate(EDGES) if bits >> b & 1]
        for inp in (0, 1):
            if not expect(edges, 0, inp, 0) and (full or bits % 3 == inp):
                jobs.append((bits, edges, inp))

    def refuse(j):
        bits, edges, inp = j
        T, rules, _ = scen(1, edges, 0, inp)
        d = os.path.join(r.work, "r%d_%d" % (bits, inp))
        os.makedirs(d + "/out", exist_ok=True)
        src = write(d + "/d.rs.in", "".join(rules) + "foreign_class!(class W { %s });\n" % ("fn f(a: G1T0) -> i64;" if inp else "fn f() -> G1T0;"))
        g = gen(dict(lang="cpp", srcs=[src], out_rs=d + "/glue.rs", out_dir=d + "/out", ns="fg"), d)
        shutil.rmtree(d, ignore_errors=True)
        return g
    for (bits, edges, inp), g in zip(jobs, pmap(refuse, jobs)):
        r.state(("refuse", bits, inp))
        r.transitions += 1
        if g.ok:
            r.violation("refuse/%d/%d" % (bits, inp), "%s of T0 is accepted although no chain of rules exists: %s" % ("argument" if inp else "return", edges))


def check(r):
    r.failing_keep = False
    for f in (check_graphs,):
        f(r, r.thorough)
