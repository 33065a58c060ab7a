"""C32: bare strings given to a node become the documented names and description."""
import json
import os
import time
from concurrent.futures import ThreadPoolExecutor

from checks_vrules import attribute
from checks_nodes import build
from srv import JOBS, CompileError, compile_cmd, run

PRE = '''
#include <cstdio>
#include <string>
namespace sp = ar::utility::string_to_policy;
template <int> struct Ic;
#ifdef S_
#    define STR(x) S_(x){}
#    define LIT(x) S_(x){}
#else
#    define STR(x) ar::str<x>{}
#    define LIT(x) x##_S
#endif
template <typename...> struct PA { int id; std::string text; explicit PA(int i) : id{i}, text{"policy number " + std::to_string(i) + ", told apart"} {} };
template <typename... T> struct arp::is_policy<PA<T...>> : std::true_type {};
#define M(X) template <typename S> struct X { static std::string_view get() { return S::get(); } constexpr static const char* label = #X; };
M(M1) M(M2) M(M3)
template <typename... P> struct NA : ar::tree_node<P...> { explicit NA(P... p) : ar::tree_node<P...>{std::move(p)...} {} };
inline std::string hex(std::string_view s) { std::string o; char b[3]; for (unsigned char c : s) { std::snprintf(b, 3, "%02x", c); o += b; } return o; }
template <typename... T> std::string state(const PA<T...>& p) { return " @" + std::to_string(p.id) + (p.text == "policy number " + std::to_string(p.id) + ", told apart" ? "" : "!"); }
template <typename N> std::string names(const N& n);
template <typename T> std::string one(const T& t)
{
    if constexpr (ar::traits::is_specialisation_of_v<T, PA>) {
        return state(t);
    } else if constexpr (ar::is_tree_node_v<T>) {
        return names(t);
    } else {
        return std::string{" "} + T::label + "=" + hex(T::get());
    }
}
template <typename N, typename... P> std::string states(const N& n, std::tuple<P...>*)
{
    std::string s;
    auto f = [&](auto* p) {
        using T = std::remove_const_t<std::remove_pointer_t<decltype(p)>>;
        if constexpr (ar::traits::is_specialisation_of_v<T, PA>) { s += state(static_cast<const T&>(n)); }
    };
    (f(static_cast<P*>(nullptr)), ...);
    return s;
}
template <typename N> std::string names(const N& n)
{
    std::string s = " (";
    if constexpr (ar::traits::has_long_name_method_v<N>) { s += " long_name=" + hex(N::long_name()); }
    if constexpr (ar::traits::has_short_name_method_v<N>) { s += " short_name=" + hex(N::short_name()); }
    if constexpr (ar::traits::has_none_name_method_v<N>) { s += " none_name=" + hex(N::none_name()); }
    if constexpr (ar::traits::has_display_name_method_v<N>) { s += " display_name=" + hex(N::display_name()); }
    if constexpr (ar::traits::has_description_method_v<N>) { s += " description=" + hex(N::description()); }
    s += states(n, static_cast<typename N::policies_type*>(nullptr));
    std::apply([&](const auto&... c) { ((s += one(c)), ...); }, n.children());
    return s + " )";
}
template <typename... T> std::string tup(const std::tuple<T...>& t) { std::string s; std::apply([&](const auto&... e) { ((s += one(e)), ...); }, t); return s; }
'''
FACT = {'flag': 'ar::flag', 'counting_flag': 'ar::counting_flag<int>', 'arg': 'ar::arg<int>', 'multi_arg': 'ar::multi_arg<std::vector<int>>',
        'positional_arg': 'ar::positional_arg<std::vector<int>>', 'forwarding_arg': 'ar::forwarding_arg',
        'help': 'ar::help', 'mode': 'ar::mode'}
MAPS = {k: [('first_string', 'long_name'), ('second_string', 'description'), ('single_char', 'short_name')] for k in ('flag', 'counting_flag', 'arg', 'multi_arg', 'help')}
MAPS['positional_arg'] = [('first_text', 'display_name'), ('second_text', 'description')]
MAPS['forwarding_arg'] = [('first_string', 'none_name'), ('second_string', 'description')]
MAPS['mode'] = [('first_text', 'none_name'), ('second_text', 'description')]
WORDS = ['hello', 'ab', 'long-name', 'été', '日本', 'o_o', 'x1', 'nai\u0308ve', 'e\u0301x', 'many-words-here', 'a\U0001F44D', '\U0001F1EC\U0001F1E7\U0001F1EB\U0001F1F7']
TEXTS = ['some text', 'two  words', 'Ends with a dot.', '日本 語', 'x y', 'e\u0301 e\u0301']
ONES = ['a', 'Z', 'é', 'e\u0301', '日', '\U0001F44D', '\U0001F44D\U0001F3FD', '?', '7', '\U0001F1EC\U0001F1E7', 'o\u0308\u0301']


def single(s):
    return s in ONES


class Case:
    """fact: factory or None (convert with maps); params: ('S', text) | ('P', tag, id) | ('N', Case)"""

    def __init__(self, fact, maps, params):
        self.fact, self.maps, self.params = fact, maps, params

    def strings(self):
        return [p[1] for p in self.params if p[0] == 'S']

    def mapped(self):
        """-> {label: text} or None when a string is left over"""
        s = self.strings()
        multi = [x for x in s if not single(x)]
        ones = [x for x in s if single(x)]
        src = dict(first_string=multi[:1], second_string=multi[1:2], single_char=ones[:1], first_text=s[:1], second_text=s[1:2])
        out = [(l, src[m][0]) for m, l in self.maps if src[m]]
        return out if len(out) == len(s) else None

    def expr(self):
        a = []
        for p in self.params:
            if p[0] == 'S':
                a.append('%s("%s")' % ('STR' if sum(map(ord, p[1])) % 3 else 'LIT', p[1]))
            elif p[0] == 'P':
                a.append('PA<Ic<%d>>{%d}' % (p[1], p[2]))
            elif p[0] == 'R':
                a.append(p[1])
            else:
                a.append(p[1].expr())
        if self.fact:
            return '%s(%s)' % (FACT[self.fact], ', '.join(a))
        return 'sp::convert<%s>(%s)' % (', '.join('sp::%s_mapper<%s>' % m for m in self.maps), ', '.join(a))

    def expected(self):
        """comparable form"""
        m = sorted('%s=%s' % (l, t.encode().hex()) for l, t in self.mapped())
        st = ['@%d' % p[2] for p in self.params if p[0] == 'P']
        ch = [p[1].expected() for p in self.params if p[0] == 'N']
        return (m, st, ch)

    def ok(self):
        return self.mapped() is not None and all(p[1].ok() for p in self.params if p[0] == 'N')

    def walk(self):
        yield self
        for p in self.params:
            if p[0] == 'N':
                yield from p[1].walk()

    def dump(self):
        return [self.fact, self.maps, [['N', p[1].dump()] if p[0] == 'N' else list(p) for p in self.params]]


def load(d):
    return Case(d[0], [tuple(m) for m in d[1]], [('N', load(p[1])) if p[0] == 'N' else tuple(p) for p in d[2]])


def parse(words):
    """words of one level -> comparable form; consumes up to the closing parenthesis"""
    m, st, ch = [], [], []
    while words:
        w = words.pop(0)
        if w == ')':
            break
        if w == '(':
            ch.append(parse(words))
        elif w[0] == '@':
            st.append(w)
        else:
            m.append(w)
    return (sorted(m), st, ch)


class Gen:
    def __init__(self, r):
        self.r, self.n = r, 0

    def policies(self, most):
        out = []
        for t in self.r.sample(range(6), self.r.randint(0, most)):
            self.n += 1
            out.append(('P', t, self.n))
        return out

    def case(self, fact='any', valid=None):
        r = self.r
        if fact == 'any':
            fact = r.choice([None, None, None] + list(FACT))
        if fact:
            maps = MAPS[fact]
        elif r.random() < .7:
            maps = r.sample([('first_string', 'M1'), ('second_string', 'M2'), ('single_char', 'M3')], r.choice([1, 2, 3, 3]))
        else:
            maps = r.sample([('first_text', 'M1'), ('second_text', 'M2')], r.choice([1, 2, 2]))
        kinds = [m for m, _ in maps]
        multi = ('first_string' in kinds) and r.choice([1, 1, 2] if 'second_string' in kinds else [1])
        ss = []
        if 'first_text' in kinds or 'second_text' in kinds:
            k = r.choice([1, 2, 2]) if 'second_text' in kinds else 1
            ss = [r.choice(WORDS)] + [r.choice(WORDS + TEXTS + ONES) for _ in range(k - 1)]
            if not fact and r.random() < .4:
                ss[0] = r.choice(ONES)
        else:
            ss = [r.choice(WORDS)] * bool(multi) + [r.choice(WORDS + TEXTS) for _ in range((multi or 0) - 1)]
            if 'single_char' in kinds and (not ss or r.random() < .6):
                ss.insert(r.randrange(len(ss) + 1), r.choice(ONES))
        named = fact in ('flag', 'counting_flag', 'arg', 'multi_arg', 'help')
        if named and r.random() < .2:
            ss = [r.choice(ONES)]
        if not fact and r.random() < .15:
            ss = ss[:-1]
        if valid is None and r.random() < .3:
            # possibly one too many
            ss.insert(r.randrange(len(ss) + 1) if not fact else len(ss), r.choice(ONES + WORDS))
        ps = [('S', s) for s in ss]
        for p in self.policies(3):
            ps.insert(r.randrange(len(ps) + 1), p)
        if fact == 'mode':
            ps.insert(r.randrange(len(ps) + 1), ('R', 'arp::router{[](auto&&...) {}}'))
        if fact in ('mode', None):
            for _ in range(r.choice([1, 2] if fact else [0, 1, 2])):
                ps.insert(r.randrange(len(ps) + 1), ('N', self.case(r.choice(['flag', 'arg', 'counting_flag', 'multi_arg']), True)))
        return Case(fact, maps, ps)


def src_valid(cases):
    return PRE + ''.join('void c%d() { std::puts(%s(%s).c_str()); }\n' % (i, 'names' if c.fact else 'tup', c.expr()) for i, c in enumerate(cases)) + \
        'IRoot* make_root(unsigned) { return nullptr; }\nint main()\n{\n' + ''.join('    c%d();\n' % i for i in range(len(cases))) + '}\n'


def execute(b, nm, cases):
    """-> None or what is wrong, for each of the acceptable cases"""
    path = '%s/%s.cpp' % (b.dir, nm)
    with open(path, 'w') as f:
        f.write(src_valid(cases))
    try:
        compile_cmd([b.cxx] + b.base + b.flags + b.inc + [path, '-o', path[:-4]])
    except CompileError as e:
        if len(cases) == 1:
            return ['does not compile: ' + ' / '.join(l for l in e.text.split('\n') if 'error' in l)[:600]]
        h = len(cases) // 2
        return execute(b, nm + 'a', cases[:h]) + execute(b, nm + 'b', cases[h:])
    finally:
        os.unlink(path)
    rc, o, e = run([path[:-4]], 60)
    os.unlink(path[:-4])
    lines = o.decode('utf-8', 'replace').split('\n')[:-1]
    out = []
    for i, c in enumerate(cases):
        if i >= len(lines):
            out.append('the program ended with %s' % rc)
            continue
        got = parse(lines[i].split())
        if c.fact:
            got = got[2][0]
        out.append(None if got == c.expected() else 'it holds %r, expected %r' % (got, c.expected()))
    return out


def refusals(b, nm, cases):
    """-> None or what is wrong, for each of the cases to be refused"""
    errs = attribute(b, nm, PRE, ['auto c%d = %s;' % (i, c.expr()) for i, c in enumerate(cases)])
    return [None if i in errs else 'accepted, although a string is left over' for i in range(len(cases))]


def judge(b, nm, cases):
    good = [(i, c) for i, c in enumerate(cases) if c.ok()]
    badc = [(i, c) for i, c in enumerate(cases) if not c.ok()]
    out = [None] * len(cases)
    if good:
        for (i, _), w in zip(good, execute(b, nm, [c for _, c in good])):
            out[i] = w
    if badc:
        for (i, _), w in zip(badc, refusals(b, nm + 'r', [c for _, c in badc])):
            out[i] = w
    return out


def smaller(c):
    out = []
    for i, p in enumerate(c.params):
        if p[0] != 'R' and not (c.fact == 'mode' and p[0] == 'N' and sum(q[0] == 'N' for q in c.params) == 1):
            out.append(Case(c.fact, c.maps, c.params[:i] + c.params[i + 1:]))
        if p[0] == 'N':
            out.append(p[1])
            out += [Case(c.fact, c.maps, c.params[:i] + [('N', x)] + c.params[i + 1:]) for x in smaller(p[1])]
        if p[0] == 'S' and p[1] not in ('ab', 'a'):
            out.append(Case(c.fact, c.maps, c.params[:i] + [('S', 'a' if single(p[1]) else 'ab')] + c.params[i + 1:]))
    if not c.fact:
        out += [Case(None, c.maps[:i] + c.maps[i + 1:], c.params) for i in range(len(c.maps)) if len(c.maps) > 1]
    # nodes need a name
    return [x for x in out if all(not y.fact or y.strings() and not (y.fact == 'mode' and single(y.strings()[0]))
                                  and not (y.fact == 'forwarding_arg' and all(map(single, y.strings()))) for y in x.walk())]


def C32(ctx):
    ctx.rule = ('factory functions of all nodes, and the conversion with generated mapping lists, called with bare strings (one or several '
                'user-perceived characters, several bytes or code points each), stateful policies and children in any order; names, description and '
                'policies held are compared with the documented mapping, and a string left over must be refused; non-trivial: two strings or more, or a policy among them')
    builds = {std: build(std) for std in ('c++17', None)}
    total = 16 if ctx.quick else 200
    per = 30
    bad = []
    try:
        for b in builds.values():
            b.prepare()

        def unit(u):
            if u and ctx.late():
                return None
            r = ctx.rng('strings', u)
            std = 'c++17' if u % 3 == 2 else None
            cs = [Gen(r).case() for _ in range(per)]
            return std, cs, judge(builds[std], 'n%d' % u, cs)
        with ThreadPoolExecutor(JOBS) as ex:
            for got in ex.map(unit, range(total)):
                if got is None:
                    continue
                std, cs, res = got
                for c, w in zip(cs, res):
                    nt = len(c.strings()) > 1 or len(c.params) > 1 and bool(c.strings())
                    ctx.case(c.expr(), nt, dict(call=c.expr()[:400], mapped=c.mapped()) if nt else None)
                    ctx.cls('accepted' if c.ok() else 'refused')
                    ctx.cls('by ' + (c.fact or 'convert'))
                    if any(len(s.encode()) > len(s) for s in c.strings()):
                        ctx.cls('multi-byte')
                    if w:
                        bad.append((std, c, w))
        bad.sort(key=lambda x: len(x[1].expr()))
        seen = set()
        for std, c, w in bad[:40]:
            key = (c.fact, w[:12])
            if key in seen or len(seen) >= 3:
                continue
            seen.add(key)
            b = builds[std]
            t_end = min(time.time() + 60, ctx.t0 + 780)
            while time.time() < t_end:
                cands = [x for x in smaller(c) if x.ok() == c.ok()]
                if not cands:
                    break
                res = judge(b, 's', cands)
                hit = [(len(x.expr()), i) for i, x in enumerate(cands) if res[i] and res[i][:6] == w[:6]]
                if not hit:
                    break
                c, w = cands[min(hit)[1]], res[min(hit)[1]]
            ctx.violation('%s: %s' % (c.expr(), w), dict(module='checks_strings', std=std, case=c.dump(), cpp=c.expr(), what_is_wrong=w))
    finally:
        for b in builds.values():
            b.close()


def replay(d):
    b = build(d['std'])
    try:
        b.prepare()
        w = judge(b, 'r', [load(d['case'])])[0]
        print(w or 'as expected')
        return 1 if w else 0
    finally:
        b.close()


CHECKS = dict(C32=C32)
TECH = dict(C32='property-based testing: generated calls of the node factories and of the string conversion; oracle: the documented mapping, against the names and policies held')
