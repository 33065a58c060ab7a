"""C31: a tree holds and visits exactly what it was built from."""
import copy
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

from srv import HERE, JOBS, Build, CompileError, run

PRE = '''
#include <cstdio>
#include <map>
#include <string>
template <int> struct Ic;
struct P0 { int id; std::string text; explicit P0(int i) : id{i}, text{"policy number " + std::to_string(i) + ", told apart"} {} };
template <typename...> struct PA : P0 { using P0::P0; };
template <typename...> struct PB : P0 { using P0::P0; };
template <typename...> struct PC : P0 { using P0::P0; constexpr static bool mark = true; };
template <typename N, typename...> struct PP : P0 { using P0::P0; constexpr static std::size_t priority = N::value; };
template <typename N, typename...> struct PM : P0 { using P0::P0; constexpr static std::size_t priority = N::value; constexpr static bool mark = true; };
#define POL(X) template <typename... T> struct arp::is_policy<X<T...>> : std::true_type {}; 
POL(PA) POL(PB) POL(PC) POL(PP) POL(PM)
#define NODE(X) template <typename... P> struct X : ar::tree_node<P...> { int id; explicit X(int i, P... p) : ar::tree_node<P...>{std::move(p)...}, id{i} {} template <template <typename...> typename F> using find = typename ar::tree_node<P...>::template phase_finder_t<F>; };
NODE(NA) NODE(NB) NODE(NC)
template <template <typename...> typename X, typename... P> auto mk(int id, P... p) { return X<P...>{id, std::move(p)...}; }
template <std::size_t N> using Sz = std::integral_constant<std::size_t, N>;
template <typename T> struct has_mark { template <typename U> using type = decltype(U::mark); constexpr static bool value = boost::mp11::mp_valid<type, T>::value; };
template <typename T, typename V> struct has_size { constexpr static bool value = sizeof(T) > 1000000 * sizeof(V); };
template <typename T> struct nm;
#define NMK(X) template <typename... T> struct nm<X<T...>> { static std::string get() { std::string s = #X "<"; ((s += nm<T>::get()), ...); return s + ">"; } };
NMK(PA) NMK(PB) NMK(PC) NMK(PP) NMK(PM)
template <int I> struct nm<Ic<I>> { static std::string get() { return std::to_string(I); } };
template <std::size_t I> struct nm<Sz<I>> { static std::string get() { return std::to_string(I) + "."; } };
template <typename T> struct nms;
template <typename... T> struct nms<std::tuple<T...>> { static std::string get() { std::string s; ((s += nm<T>::get()), ...); return s; } };
#define NMN(X) template <typename... T> struct nm<X<T...>> { static std::string get() { using S = X<T...>; return #X "{" + nms<typename S::policies_type>::get() + ";" + nms<typename S::children_type>::get() + "}"; } };
NMN(NA) NMN(NB) NMN(NC)
template <typename N> std::string pol(const N& n, const P0& p)
{
    const bool ok = p.text == "policy number " + std::to_string(p.id) + ", told apart";
    return std::to_string(p.id) + (ok ? " " : "! ");
}
template <typename N, typename... P> std::string pols(const N& n, std::tuple<P...>*)
{
    std::string s;
    ((s += pol(n, static_cast<const P&>(n))), ...);
    return s;
}
using At = std::map<int, const void*>;
template <typename N> void walk(const N& n, std::string& o, At& at)
{
    at[n.id] = &n;
    o += "(" + std::to_string(n.id) + ":" + pols(n, static_cast<typename N::policies_type*>(nullptr));
    std::apply([&](const auto&... c) { (walk(c, o, at), ...); }, n.children());
    o += ")";
}
struct Log {
    static inline std::string o;
    template <typename T, typename... P> constexpr static void fn() { note<T, P...>(); }
    template <typename T, typename... P> static void note() { o += nm<T>::get(); ((o += "^" + nm<P>::get()), ...); o += " "; }
};
struct Skip {
    template <typename T, typename... P> constexpr static bool fn() noexcept
    {
        if constexpr (ar::traits::is_specialisation_of_v<T, PB>) {
            return true;
        } else if constexpr (sizeof...(P) > 0 && ar::traits::is_specialisation_of_v<T, NC>) {
            return ar::traits::is_specialisation_of_v<boost::mp11::mp_first<std::tuple<P...>>, NA>;
        } else {
            return false;
        }
    }
};
template <typename... T> struct W { using type = W; };
template <typename T, typename... P> struct Visit { using type = W<T, P...>; };
template <typename T, typename... P> std::string wn(W<T, P...>*) { std::string s = nm<T>::get(); ((s += "^" + nm<P>::get()), ...); return s + " "; }
template <typename... T> std::string wns(std::tuple<T...>*) { std::string s; ((s += wn(static_cast<T*>(nullptr))), ...); return s; }
template <typename N> void per_node(const N& n)
{
    using PT = typename N::policies_type;
    std::string o = std::to_string(n.id) + ":";
    o += pols(n, static_cast<typename N::priority_ordered_policies_type*>(nullptr));
    using F = typename N::template phase_finder_t<has_mark>;
    if constexpr (std::is_void_v<F>) o += "m-"; else o += "m" + std::to_string(static_cast<const F&>(n).id);
    o += ar::tree_node<>::any_phases_v<int, has_mark> ? "?" : "";
    o += N::template any_phases_v<int, has_size> ? "?" : "";
    o += N::template any_phases_v<int, has_size, has_mark> ? " y" : " n";
    o += " " + std::to_string(ar::algorithm::find_specialisation_v<PA, PT>) + "," + std::to_string(ar::algorithm::count_specialisation_v<PB, PT>) + "," +
         std::to_string(ar::algorithm::has_specialisation_v<PP, PT>);
    if constexpr (std::tuple_size_v<PT> > 0) {
        using L = boost::mp11::mp_back<PT>;
        o += "," + std::to_string(ar::algorithm::count_despecialised_v<L, PT>);
    }
    int k = 0;
    ar::utility::tuple_iterator([&](auto i, const auto& c) { o += (i == std::size_t(k++) ? " " : " ?") + std::to_string(c.id); }, n.children());
    ar::utility::tuple_type_iterator<PT>([&](auto i) { o += " " + nm<std::tuple_element_t<i, PT>>::get(); });
    std::puts(o.c_str());
    std::apply([&](const auto&... c) { (per_node(c), ...); }, n.children());
}
template <typename N> void renumber(N& n)
{
    n.id += 1000;
    std::apply([&](auto&... c) { (renumber(c), ...); }, n.children());
}
template <typename N> void show(N tree)
{
    std::puts("CASE");
    const auto& n = tree;
    At at;
    std::string o;
    walk(n, o, at);
    std::puts(o.c_str());
    o.clear();
    ar::utility::tree_recursor([&](const auto& c, const auto&... p) {
        o += std::to_string(c.id) + (at[c.id] == &c ? "" : "?");
        ((o += "^" + std::to_string(p.id) + (at[p.id] == &p ? "" : "?")), ...);
        o += " ";
    }, n);
    std::puts(o.c_str());
    Log::o.clear();
    ar::utility::tree_type_recursor<Log, N>();
    std::puts(Log::o.c_str());
    Log::o.clear();
    ar::utility::tree_type_recursor<Log, Skip, N>();
    std::puts(Log::o.c_str());
    std::puts(wns(static_cast<ar::utility::tree_type_recursor_collector_t<Visit, N>*>(nullptr)).c_str());
    auto other = tree;
    renumber(other);
    At at2;
    o.clear();
    walk(n, o, at2);
    std::puts(o.c_str());
    const auto moved = std::move(other);
    o.clear();
    walk(moved, o, at2);
    std::puts(o.c_str());
    per_node(n);
}
'''


class N:
    """kind, id, params: list of ('P', kind, tag, priority, id) | N | ('L', [N])"""

    def __init__(self, k, id, params):
        self.k, self.id, self.params = k, id, params

    @property
    def pols(self):
        return [p for p in self.params if isinstance(p, tuple) and p[0] == 'P']

    @property
    def ch(self):
        out = []
        for p in self.params:
            if isinstance(p, N):
                out.append(p)
            elif p[0] == 'L':
                out += p[1]
        return out

    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()


def ptype(p):
    if p[1] in ('PP', 'PM'):
        return '%s<Sz<%dull>, Ic<%d>>' % (p[1], p[3], p[2])
    return '%s<Ic<%d>>' % (p[1], p[2])


def expr(n):
    out = [str(n.id)]
    for p in n.params:
        if isinstance(p, N):
            out.append(expr(p))
        elif p[0] == 'L':
            out.append('ar::list{%s}' % ', '.join(expr(c) for c in p[1]))
        else:
            out.append('%s{%d}' % (ptype(p), p[4]))
    return 'mk<%s>(%s)' % (n.k, ', '.join(out))


def pname(p):
    return '%s<%s%d>' % (p[1], '%d.' % p[3] if p[1] in ('PP', 'PM') else '', p[2])


def name(n):
    return '%s{%s;%s}' % (n.k, ''.join(map(pname, n.pols)), ''.join(map(name, n.ch)))


def prio(p):
    return p[3] if p[1] in ('PP', 'PM') else 0


def wtext(n, add=0):
    return '(%d:%s%s)' % (n.id + add, ''.join('%d ' % p[4] for p in n.pols), ''.join(wtext(c, add) for c in n.ch))


def visit(n, par=(), skip=None):
    if skip and skip(n, par):
        return
    yield n, par
    for p in n.pols:
        if not (skip and skip(p, (n,) + par)):
            yield p, (n,) + par
    for c in n.ch:
        yield from visit(c, (n,) + par, skip)


def skipped(x, par):
    if isinstance(x, tuple):
        return x[1] == 'PB'
    return bool(par) and x.k == 'NC' and par[0].k == 'NA'


def tn(x):
    return pname(x) if isinstance(x, tuple) else name(x)


def ids(n, par=()):
    yield '%d%s ' % (n.id, ''.join('^%d' % p.id for p in par))
    for c in n.ch:
        yield from ids(c, (n,) + par)


def per_node(n):
    ps = n.pols
    marks = [p for p in ps if p[1] in ('PC', 'PM')]
    a = [p[1] for p in ps]
    # equal priorities may come in any order: see norm()
    yield (n.id, [(prio(p), p[4]) for p in ps],
           'm%s %s %d,%d,%d%s%s%s' % (marks[0][4] if marks else '-', 'y' if marks else 'n', a.index('PA') if 'PA' in a else len(a), a.count('PB'), 'PP' in a,
                                      ',%d' % a.count(a[-1]) if a else '', ''.join(' %d' % c.id for c in n.ch), ''.join(' ' + pname(p) for p in ps)))
    for c in n.ch:
        yield from per_node(c)


def judge(n, lines):
    """lines of one case -> None or what is wrong"""
    exp = [('construction', wtext(n)), ('tree_recursor', ''.join(ids(n))),
           ('tree_type_recursor', ''.join('^'.join(map(tn, (x,) + p)) + ' ' for x, p in visit(n))),
           ('tree_type_recursor with a skip function', ''.join('^'.join(map(tn, (x,) + p)) + ' ' for x, p in visit(n, (), skipped)))]
    col = sorted('^'.join(map(tn, (x,) + p)) for x, p in visit(n))
    rest = [('copying', wtext(n)), ('moving a copy', wtext(n, 1000))]
    for i, (w, e) in enumerate(exp):
        if lines[i] != e:
            return '%s gives %s, expected %s' % (w, lines[i], e)
    if sorted(lines[4].split()) != col:
        return 'tree_type_recursor_collector gives %s, expected %s' % (sorted(lines[4].split()), col)
    for i, (w, e) in enumerate(rest):
        if lines[5 + i] != e:
            return '%s gives %s, expected %s' % (w, lines[5 + i], e)
    pn = list(per_node(n))
    if len(lines) != 7 + len(pn):
        return '%d nodes listed, expected %d' % (len(lines) - 7, len(pn))
    for l, (id, ps, e) in zip(lines[7:], pn):
        head, tail = l.split('m', 1)
        got = head.split(':')[1].split()
        by = {str(i): p for p, i in ps}
        if head.split(':')[0] != str(id) or sorted(got) != sorted(by) or [by[g] for g in got] != sorted((p for p, _ in ps), reverse=True):
            return 'policies of node %d by priority are %s, expected an order of %s' % (id, got, ps)
        if 'm' + tail != e:
            return 'node %d: %s, expected %s' % (id, 'm' + tail, e)
    return None


PRIOS = [0, 1, 2, 500, 255, 256, 65535, 65536, 65537, 10 ** 6, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 63, 2 ** 64 - 1]


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def next(self):
        self.n += 1
        return self.n

    def pols(self):
        r = self.r
        out, seen = [], set()
        for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
            p = ('P', r.choice(['PA', 'PA', 'PB', 'PC', 'PP', 'PP', 'PM']), r.choice([0, 1, 2]), r.choice(PRIOS))
            if ptype(p) not in seen:
                seen.add(ptype(p))
                out.append(p + (self.next(),))
        return out

    def node(self, depth):
        r = self.r
        n = N(r.choice(['NA', 'NB', 'NC']), self.next(), self.pols())
        if depth < 3:
            kids = [self.node(depth + 1) for _ in range(r.choice([0, 0, 1, 2] if depth else [1, 2, 2, 3]))]
            if kids and r.random() < .3:
                kids.insert(r.randrange(len(kids) + 1), self.renew(r.choice(kids)))
            i = 0
            groups = []
            while i < len(kids):
                if r.random() < .3:
                    k = r.choice([1, 2, 3])
                    groups.append(('L', kids[i:i + k]))
                    i += k
                else:
                    groups.append(kids[i])
                    i += 1
            if r.random() < .08:
                groups.insert(r.randrange(len(groups) + 1), ('L', []))
            for g in groups:
                n.params.insert(r.randrange(len(n.params) + 1), g)
        return n

    def renew(self, n):
        """the same type with other values"""
        return N(n.k, self.next(), [self.renew(p) if isinstance(p, N) else ('L', [self.renew(c) for c in p[1]]) if p[0] == 'L' else p[:4] + (self.next(),)
                                    for p in n.params])


def dump(n):
    return [n.k, n.id, [dump(p) if isinstance(p, N) else ['L', [dump(c) for c in p[1]]] if p[0] == 'L' else list(p) for p in n.params]]


def load(d):
    return N(d[0], d[1], [load(p) if p[0] in ('NA', 'NB', 'NC') else ('L', [load(c) for c in p[1]]) if p[0] == 'L' else tuple(p) for p in d[2]])


def nontrivial(n):
    return sum(1 for _ in n.walk()) >= 3 and sum(len(x.pols) for x in n.walk()) >= 2


def tu(cases):
    return PRE + ''.join('void c%d() { show(%s); }\n' % (i, expr(c)) for i, c in enumerate(cases)) + \
        'IRoot* make_root(unsigned) { return nullptr; }\nint main()\n{\n' + ''.join('    c%d();\n' % i for i in range(len(cases))) + '}\n'


def execute(b, nm, cases):
    """-> list of (None or what is wrong) per case"""
    from srv import compile_cmd
    path = '%s/%s.cpp' % (b.dir, nm)
    with open(path, 'w') as f:
        f.write(tu(cases))
    try:
        compile_cmd([b.cxx] + b.base + b.flags + b.inc + [path, '-o', path[:-4]])
    except CompileError as e:
        if len(cases) == 1:
            return ['does not compile: ' + e.text[:600]]
        h = len(cases) // 2
        return execute(b, nm + 'a', cases[:h]) + execute(b, nm + 'b', cases[h:])
    finally:
        os.unlink(path)
    rc, o, e = run([path[:-4]], 60)
    os.unlink(path[:-4])
    parts = o.decode('utf-8', 'replace').split('CASE\n')[1:]
    out = []
    for i, c in enumerate(cases):
        if i >= len(parts) or (rc and i == len(parts) - 1):
            out.append('the program ended with %s' % rc)
        else:
            try:
                out.append(judge(c, parts[i].split('\n')[:-1]))
            except (IndexError, ValueError, KeyError) as x:
                out.append('output not understood: %r in %s' % (x, parts[i][:400]))
    return out


def smaller(n):
    out = []
    for i, x in enumerate(n.walk()):
        for j, p in enumerate(x.params):
            t = copy.deepcopy(n)
            y = list(t.walk())[i]
            del y.params[j]
            out.append(t)
            if not isinstance(p, N) and p[0] == 'L':
                t = copy.deepcopy(n)
                y = list(t.walk())[i]
                y.params[j:j + 1] = y.params[j][1]
                out.append(t)
        if i:
            out.append(copy.deepcopy(x))
    return out


def build(std):
    return Build(flags=['-I' + HERE + '/cpp/shim17'], std=std) if std else Build()


def C31(ctx):
    ctx.rule = ('generated trees of user-defined nodes: policies with and without priority, children and lists of children in any order, '
                'same-typed siblings; what the built, copied and moved tree holds and what the recursors, the collector, the priority order, '
                'the phase finder and the tuple algorithms answer is compared with the construction; non-trivial: 3 nodes and 2 policies or more')
    bad = []
    builds = {std: build(std) for std in ('c++17', None)}
    total = 16 if ctx.quick else 240
    per = 12
    try:
        for b in builds.values():
            b.prepare()

        def unit(u):
            if u and ctx.late():
                return None
            r = ctx.rng('nodes', u)
            cs = [Gen(r).node(0) for _ in range(per)]
            std = 'c++17' if u % 2 else None
            return std, cs, execute(builds[std], 'n%d' % u, cs)
        with ThreadPoolExecutor(JOBS) as ex:
            for got in ex.map(unit, range(total)):
                if got is None:
                    continue
                std, cs, res = got
                for c, w in zip(cs, res):
                    nt = nontrivial(c)
                    ctx.case(expr(c), nt, dict(tree=expr(c)[:400], nodes=len(list(c.walk()))) if nt else None)
                    if any(isinstance(p, tuple) and p[0] == 'L' for x in c.walk() for p in x.params):
                        ctx.cls('with lists')
                    if any(len({name(k) for k in x.ch}) < len(x.ch) for x in c.walk()):
                        ctx.cls('same-typed siblings')
                    ctx.cls(std or 'c++20')
                    if w:
                        bad.append((std, c, w))
        bad.sort(key=lambda x: len(expr(x[1])))
        seen = set()
        for std, c, w in bad[:40]:
            key = w.split(' gives')[0][:40]
            if key in seen or len(seen) >= 3:
                continue
            seen.add(key)
            b = builds[std]
            t_end = min(time.time() + 60, ctx.t0 + 780)
            while time.time() < t_end:
                cands = smaller(c)
                if not cands:
                    break
                with ThreadPoolExecutor(JOBS) as ex:
                    k = max(1, (len(cands) + JOBS - 1) // JOBS)
                    res = sum(ex.map(lambda i: execute(b, 's%d' % i, cands[i:i + k]), range(0, len(cands), k)), [])
                hit = [(len(expr(x)), i) for i, x in enumerate(cands) if res[i] and ('compile' in res[i]) == ('compile' in w)]
                if not hit:
                    break
                c, w = cands[min(hit)[1]], res[min(hit)[1]]
            ctx.violation('%s: %s' % (expr(c), w), dict(module='checks_nodes', std=std, case=dump(c), cpp=expr(c), what_is_wrong=w))
    finally:
        for b in builds.values():
            b.close()


def replay(d):
    b = build(d['std'])
    try:
        b.prepare()
        w = execute(b, 'r', [load(d['case'])])[0]
        print(w or 'as expected')
        return 1 if w else 0
    finally:
        b.close()


CHECKS = dict(C31=C31)
TECH = dict(C31='property-based testing: generated trees of user-defined nodes, policies and lists; oracle: the construction itself, against what the tree holds after construction, copy and move and what the recursors and algorithms visit')
