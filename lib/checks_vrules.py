"""C30: validators made of a user's own rules."""
import copy
import json
import os
import re
import time
from concurrent.futures import ThreadPoolExecutor

from srv import JOBS, Build, CompileError, run

PRE = '''#pragma once
#include <cstdio>
#include <string>
#include <typeinfo>
namespace av = arp::validation;
namespace avu = av::utility;
template <int> struct Ic;
template <typename...> struct PA {};
template <typename...> struct PB {};
template <typename...> struct PC {};
template <typename...> struct AN {};
template <typename...> struct U {};
template <typename... T> struct arp::is_policy<PA<T...>> : std::true_type {};
template <typename... T> struct arp::is_policy<PB<T...>> : std::true_type {};
template <typename... T> struct arp::is_policy<PC<T...>> : std::true_type {};
template <typename... T> struct arp::is_policy<AN<T...>> : std::true_type {};
template <typename... T> struct arp::is_policy<U<T...>> : std::true_type {};
template <typename... P> struct NA : ar::tree_node<P...> {};
template <typename... P> struct NB : ar::tree_node<P...> {};
template <typename... P> struct NC : ar::tree_node<P...> {};
template <typename... P> struct RT : ar::tree_node<P...> {};
template <typename... P> constexpr bool has_an = (ar::traits::is_specialisation_of_v<P, AN> || ...);
template <typename... P> struct MA : ar::tree_node<P...> { constexpr static bool is_anonymous = has_an<P...>; };
template <typename... P> struct MB : ar::tree_node<P...> { constexpr static bool is_anonymous = has_an<P...>; };
template <std::size_t N> using Sz = ar::traits::integral_constant<N>;
template <typename...> struct always { constexpr static bool value = true; };
template <typename T> struct has_count { constexpr static bool value = ar::traits::has_minimum_count_method_v<T>; };
template <typename... X> struct exactly { template <typename T> struct fn { constexpr static bool value = (std::is_same_v<T, X> || ...); }; };
template <template <typename...> typename... X> struct none_of_q {
    template <typename T> struct fn { constexpr static bool value = !(ar::traits::is_specialisation_of_v<T, X> || ...); };
};
using end_marker = arp::token_end_marker_t<ar::str<";">>;
using multi_stage = arp::multi_stage_value<int, int>;
inline std::string trace;
template <typename T> std::string nm() { return std::to_string(typeid(T).hash_code() % 1000000007u); }
template <int I> struct LG {
    template <typename T, typename... Parents>
    constexpr static void check()
    {
        note<T, Parents...>();
    }
    template <typename T, typename... Parents>
    static void note()
    {
        trace += " L" + std::to_string(I) + ":" + nm<T>();
        ((trace += "," + nm<Parents>()), ...);
    }
};
'''
NODES = ['NA', 'NB', 'NC', 'MA', 'MB', 'RT']
MODES = ('MA', 'MB')
PT = ['PA', 'PB', 'PC', 'AN', 'U', 'RQ', 'CN', 'EM', 'MS']
CPPT = dict(RQ='arp::required_t', CN='arp::min_max_count_t', EM='arp::token_end_marker_t', MS='arp::multi_stage_value')


def tm(t):
    return CPPT.get(t, t)


class N:
    def __init__(self, k, pols=(), ch=()):
        self.k, self.pols, self.ch = k, list(pols), list(ch)

    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()


def pol(p, u):
    t, a = p
    if t in ('PA', 'PB', 'PC', 'AN'):
        return '%s<Ic<%d>>' % (t, a)
    if t == 'U':
        return 'U<Ic<%d>>' % u
    if t == 'RQ':
        return 'arp::required_t<>'
    if t == 'CN':
        return 'arp::min_max_count_t<Sz<%d>, Sz<%d>>' % a
    return dict(EM='end_marker', MS='multi_stage')[t]


def typ(n, u):
    """policies and children may be given in any order: here they are interleaved"""
    p = [pol(x, u) for x in n.pols]
    c = [typ(x, u) for x in n.ch]
    out = []
    while p or c:
        if c and (not p or (len(p) + 2 * len(c)) % 3 == 0):
            out.append(c.pop(0))
        else:
            out.append(p.pop(0))
    return '%s<%s>' % (n.k, ', '.join(out))


# ---------------------------------------------------------------- predicates and conditions
def pred_cpp(p):
    k, a = p
    if k in ('any', 'none'):
        return '%s<%s>' % (dict(any='av::common_rules::despecialised_any_of_rule', none='none_of_q')[k], ', '.join(map(tm, a)))
    if k == 'exact':
        return 'exactly<%s>' % ', '.join(pol(x, 0) for x in a)
    return 'boost::mp11::mp_quote<%s>' % a


def rule_cpp(r):
    p, cs = r
    if p[0] == 'fn':
        return 'av::rule<%s>' % ', '.join([p[1]] + [cond_cpp(c) for c in cs])
    return 'av::rule_q<%s>' % ', '.join([pred_cpp(p)] + [cond_cpp(c) for c in cs])


def is_node(x):
    return isinstance(x, N)


def tmpl(x):
    return x.k if is_node(x) else x[0]


def has_count(x):
    return any(p[0] == 'CN' for p in x.pols) if is_node(x) else x[0] == 'CN'


def count(n):
    return [p[1] for p in n.pols if p[0] == 'CN'][0]


def match(p, x):
    k, a = p
    if k == 'any':
        return tmpl(x) in a
    if k == 'none':
        return tmpl(x) not in a
    if k == 'exact':
        return not is_node(x) and x in a
    return {'always': True, 'arp::is_policy': not is_node(x), 'ar::is_tree_node': is_node(x), 'has_count': has_count(x)}[a]


def cond_cpp(c):
    k, a = c
    if k == 'log':
        return 'LG<%d>' % a
    if k == 'parent_types':
        return 'av::parent_types<%s>' % ', '.join('av::parent_index_pair_type<%d, %s>' % (i, t) for i, t in a)
    if a is None:
        return 'av::' + k
    return 'av::%s<%s>' % (k, ', '.join(map(tm, a)))


def has(n, t):
    return any(p[0] == t for p in n.pols)


def anon(n):
    return n.k in MODES and has(n, 'AN')


def at_end(n, kinds):
    m = [c.k in kinds for c in n.ch]
    return True not in m or all(m[m.index(True):])


def listlike(n):
    return has(n, 'CN') and count(n)[0] != count(n)[1] and not has(n, 'MS') and not has(n, 'EM')


def tup(n):
    """what makes two node types the same"""
    return (n.k, tuple(n.pols), tuple(tup(c) for c in n.ch))


def holds(c, x, par):
    k, a = c
    if k == 'log':
        return True
    if k == 'despecialised_unique_in_owner':
        return not par or sum(p[0] == x[0] for p in par[0].pols) == 1
    if k == 'policy_unique_from_owner_parent_to_mode_or_root':
        if len(par) <= 1:
            return True
        mi = [i for i, n in enumerate(par) if n.k in a]
        path = par[:mi[0] + 1] if mi else par
        for lo, up in zip(path, path[1:]):
            if sum(tup(s) == tup(lo) for s in up.ch) != 1:
                return False

        def occurrences(n):
            return n.pols.count(x) + sum(occurrences(s) for s in n.ch if s.k not in a)
        return occurrences(path[-1]) == 1
    if k == 'parent_types':
        return any(i < len(par) and par[i].k == t for i, t in a)
    if k == 'must_have_policies':
        return all(has(x, t) for t in a)
    if k == 'must_not_have_policies':
        return not any(has(x, t) for t in a)
    if k == 'child_must_have_policy':
        return all(has(s, a[0]) for s in x.ch)
    if k == 'child_must_not_have_policy':
        return not any(has(s, a[0]) for s in x.ch)
    if k == 'policy_parent_must_not_have_policy':
        return bool(par) and not has(par[0], a[0])
    if k == 'single_anonymous_mode':
        return sum(anon(s) and s.k in a for s in x.ch) <= 1
    if k == 'anonymous_mode_must_be_at_end':
        return not any(anon(s) and s.k in a for s in x.ch) or at_end(x, a)
    if k == 'at_least_one_of_policies':
        return any(has(x, t) for t in a)
    if k == 'node_types_must_be_at_end':
        return at_end(x, a)
    if k == 'list_like_nodes_must_have_fixed_count_if_not_at_end':
        m = [listlike(s) for s in x.ch]
        return sum(m) == 0 or (sum(m) == 1 and m[-1])
    if k == 'must_have_at_least_min_count_of_1_if_required':
        return not (has(x, 'RQ') and has(x, 'CN')) or count(x)[0] >= 1
    raise KeyError(k)


def visit(n, par=()):
    """every node and policy, a node before its policies, those before its children"""
    par = list(par)
    yield n, par
    for p in n.pols:
        yield p, [n] + par
    for c in n.ch:
        yield from visit(c, [n] + par)


def verdict(rules, root):
    """-> (None or why it is refused, log entries, conditions evaluated)"""
    log, seen = [], []
    why = None
    for x, par in visit(root):
        r = [r for r in rules if match(r[0], x)]
        if not r:
            why = why or 'no rule for %s' % tmpl(x)
            continue
        for c in r[0][1]:
            ok = holds(c, x, par)
            seen.append((c[0], ok))
            if c[0] == 'log':
                log.append((c[1], x, par))
            elif not ok:
                why = why or '%s of %s' % (cond_cpp(c), tmpl(x))
    return why, log, seen


# ---------------------------------------------------------------- rule lists made by the utilities
def apply_op(rules, op):
    """-> new list, and the operation as C++ over @"""
    k = op[0]
    rules = list(rules)

    def index(p):
        i = [i for i, r in enumerate(rules) if r[0] == p]
        return i[0] if i else len(rules)
    if k == 'insert':
        rules.insert(op[1], op[2])
        return rules, 'avu::insert_rule_t<%d, %s, @>' % (op[1], rule_cpp(op[2]))
    if k == 'remove':
        del rules[op[1]]
        return rules, 'avu::remove_rule_t<%d, @>' % op[1]
    if k == 'remove_by':
        i = index(op[1])
        del rules[i:i + 1]
        return rules, 'avu::remove_rule_by_type_t<%s, @>' % pred_cpp(op[1])
    if k == 'update':
        rules[op[1]] = op[2]
        return rules, 'avu::update_rule_t<%d, %s, @>' % (op[1], rule_cpp(op[2]))
    if k == 'update_by':
        rules[index(op[1])] = op[2]
        return rules, 'avu::update_rule_by_type_t<%s, %s, @>' % (pred_cpp(op[1]), rule_cpp(op[2]))
    if k == 'add':
        i = op[1]
        s = 'avu::add_to_rule_types_t<%d, %s, @>' % (i, tm(op[2]))
    elif k == 'add_by':
        i = index(op[1])
        s = 'avu::add_to_rule_types_by_rule_t<%s, %s, @>' % (pred_cpp(op[1]), tm(op[2]))
    (pk, pa), cs = rules[i]
    rules[i] = ((pk, tuple(pa) + (op[2],)), cs)
    return rules, s


class Case:
    """root; start: list of rules; ops: operations of the utilities on it"""

    def __init__(self, root, start, ops):
        self.root, self.start, self.ops = root, start, ops

    def rules(self):
        rs = self.start
        for o in self.ops:
            rs = apply_op(rs, o)[0]
        return rs

    def cpp_rules(self):
        e = 'std::tuple<%s>' % ', '.join(rule_cpp(r) for r in self.start)
        rs = self.start
        for o in self.ops:
            rs, s = apply_op(rs, o)
            e = s.replace('@', e)
        return e

    def line(self, i):
        return ('using T%d = %s; using V%d = av::validator_from_tuple<%s>; void c%d() { V%d::template validate<T%d>(); }'
                % (i, typ(self.root, i), i, self.cpp_rules(), i, i, i))

    def dump(self):
        return json.dumps([node_dump(self.root), self.start, self.ops])


def node_dump(n):
    return [n.k, n.pols, [node_dump(c) for c in n.ch]]


def totuple(x):
    return tuple(totuple(y) for y in x) if isinstance(x, list) else x


def node_load(d):
    return N(d[0], [totuple(p) for p in d[1]], [node_load(c) for c in d[2]])


def load(s):
    a, b, c = json.loads(s)
    return Case(node_load(a), list(totuple(b)), list(totuple(c)))


# ---------------------------------------------------------------- generator
class Gen:
    def __init__(self, r, logs=False):
        self.r, self.logs, self.nlog = r, logs, 0

    def pols(self, k):
        r = self.r
        out = []
        for _ in range(r.choice([0, 0, 1, 1, 2, 2])):
            out.append((r.choice(['PA', 'PA', 'PB', 'PB', 'PC']), r.choice([0, 0, 1, 2])))
        if k in MODES and r.random() < .65:
            out.append(('AN', r.choice([0, 0, 1])))
        if k not in MODES and k != 'RT':
            if r.random() < .45:
                lo = r.choice([0, 0, 1, 2])
                out.append(('CN', (lo, lo + r.choice([0, 0, 1, 3]))))
            if r.random() < .3:
                out.append(('RQ', 0))
            if r.random() < .12:
                out.append(('EM', 0))
            if r.random() < .12:
                out.append(('MS', 0))
        seen = []
        for p in out:
            if p not in seen:
                seen.append(p)
        seen.append(('U', 0))
        r.shuffle(seen)
        return seen

    def node(self, k, depth):
        r = self.r
        n = N(k, self.pols(k))
        if k == 'RT' or k in MODES:
            for _ in range(r.choice([1, 2, 2, 3, 3, 4] if not depth else [1, 1, 2, 2, 3]) if depth < 3 else 0):
                n.ch.append(self.node(r.choice(['NA', 'NB', 'NC', 'NC'] + ([] if depth >= 2 else ['MA', 'MB'] if depth else ['MA', 'MA', 'MB'])), depth + 1))
        elif depth < 3 and r.random() < .15:
            for _ in range(r.choice([1, 1, 2])):
                n.ch.append(self.node(r.choice(['NA', 'NB', 'NC']), depth + 1))
        if n.ch and r.random() < .12:
            n.ch.insert(r.randrange(len(n.ch) + 1), copy.deepcopy(r.choice(n.ch)))
        return n

    def cond(self, node):
        r = self.r
        if self.logs:
            self.nlog += 1
            return ('log', self.nlog)

        def some(pool, lo=1, hi=2):
            return tuple(r.sample(pool, r.randint(lo, hi)))
        p = ['PA', 'PB', 'PC', 'CN', 'RQ']
        if not node:
            return r.choice([('despecialised_unique_in_owner', None),
                             ('policy_unique_from_owner_parent_to_mode_or_root', r.choice([('MA',), ('MA', 'MB'), ('MB',)])),
                             ('policy_unique_from_owner_parent_to_mode_or_root', ('MA', 'MB')),
                             ('parent_types', tuple((r.choice([0, 0, 1, 1, 2]), r.choice(NODES)) for _ in range(r.choice([1, 2, 3, 4])))),
                             ('policy_parent_must_not_have_policy', some(p, 1, 1))])
        return r.choice([('parent_types', tuple((r.choice([0, 0, 0, 1, 1, 2]), r.choice(['RT', 'RT', 'MA', 'MB', 'NA'])) for _ in range(r.choice([1, 2, 3, 4])))),
                         ('must_have_policies', some(p)),
                         ('must_not_have_policies', some(p)),
                         ('child_must_have_policy', some(p, 1, 1)),
                         ('child_must_not_have_policy', some(p, 1, 1)),
                         ('single_anonymous_mode', some(MODES)),
                         ('anonymous_mode_must_be_at_end', some(MODES)),
                         ('at_least_one_of_policies', some(p, 2, 3)),
                         ('node_types_must_be_at_end', some(['NA', 'NB', 'NC', 'MA', 'MB'], 1, 3)),
                         ('list_like_nodes_must_have_fixed_count_if_not_at_end', None),
                         ('must_have_at_least_min_count_of_1_if_required', None)])

    def rule(self, tree):
        r = self.r
        node = r.random() < .55
        x = r.random()
        if x < .7:
            p = ('any', tuple(r.sample(NODES if node else PT, r.choice([1, 1, 2, 3]))))
        elif x < .8 and self.logs:
            p = ('none', tuple(r.sample(NODES + PT, r.choice([2, 5, 9]))))
        elif x < .88 and not node:
            pool = [q for n in tree.walk() for q in n.pols if q[0] != 'U']
            p = ('exact', tuple(r.sample(pool, min(len(pool), r.choice([1, 2])))))
            if not p[1]:
                p = ('any', ('PA',))
        elif x < .94 and self.logs:
            p = ('fn', 'has_count')
        else:
            p = ('fn', 'ar::is_tree_node' if node else 'arp::is_policy')
        return (p, tuple(self.cond(node) for _ in range(r.choice([0, 1, 1, 1, 2] if not self.logs else [0, 1, 1, 2, 3]))))

    def case(self):
        r = self.r
        root = self.node('RT', 0)
        few = [1, 1, 2] if not self.logs else [1, 2, 3, 5]
        start = [self.rule(root) for _ in range(r.choice(few))]
        if self.logs or r.random() < .93:
            start.append((('fn', 'always'), (self.cond(True),) if self.logs else ()))
        ops = []
        cur = start
        for _ in range(r.choice([0, 0, 1, 2, 3] if not self.logs else [0, 1, 2, 3, 4, 6])):
            o = self.op(cur, root)
            if o:
                ops.append(o)
                cur = apply_op(cur, o)[0]
        if self.logs and not any(q[0] == ('fn', 'always') for q in cur):
            o = ('insert', len(cur), (('fn', 'always'), (self.cond(True),)))
            ops.append(o)
        return Case(root, start, ops)

    def op(self, cur, root):
        r = self.r
        k = r.choice(['insert', 'insert', 'remove', 'remove_by', 'update', 'update_by', 'add', 'add', 'add_by', 'add_by'])
        # the catch-all and rules that would put node conditions on policies keep what they are
        ix = [i for i, q in enumerate(cur) if q[0] != ('fn', 'always') or (k == 'remove' and r.random() < .1)]
        if k == 'insert':
            return ('insert', r.randint(0, len(cur)), self.rule(root))
        if k == 'remove_by':
            return ('remove_by', r.choice(cur)[0] if cur and r.random() < .7 else self.rule(root)[0])
        if not ix:
            return None
        i = r.choice(ix)
        if k == 'remove':
            return ('remove', i)
        if k in ('update', 'update_by'):
            n = self.rule(root)
            return ('update', i, n) if k == 'update' else ('update_by', cur[i][0], n)
        ix = [i for i in ix if cur[i][0][0] in ('any', 'none')]
        if not ix:
            return None
        i = r.choice(ix)
        if k == 'add_by':
            i = [q[0] for q in cur].index(cur[i][0])
        a = cur[i][0][1]
        node = any(t in NODES for t in a)
        pool = [t for t in (NODES + PT if cur[i][0][0] == 'none' else NODES if node else PT) if t not in a]
        if not pool:
            return None
        t = r.choice(pool)
        return ('add', i, t) if k == 'add' else ('add_by', cur[i][0], t)


# ---------------------------------------------------------------- running
def verdicts(b, name, cases):
    """one translation unit; -> {index: first error}"""
    return attribute(b, name, PRE.replace('#pragma once', ''), [c.line(i) for i, c in enumerate(cases)])


def attribute(b, name, pre, lines):
    """compiles, syntax only, -> {index of a line: first error it gives rise to}"""
    src = pre + ''.join(l + '\n' for l in lines)
    first = pre.count('\n') + 1
    path = '%s/%s.cpp' % (b.dir, name)
    with open(path, 'w') as f:
        f.write(src)
    for attempt in range(3):
        rc, o, e = run([b.cxx] + [x for x in b.base if not x.startswith('-ferror') and not x.startswith('-ftemplate-b')] + b.flags + b.inc +
                       ['-fsyntax-only', '-ferror-limit=0', '-ftemplate-backtrace-limit=0', '-fno-caret-diagnostics', path], 300)
        if rc in (0, 1) and b'unable to execute' not in e:
            break
        time.sleep(1)
    else:
        raise RuntimeError('the compiler did not answer: ' + e.decode('utf-8', 'replace')[-400:])
    os.unlink(path)
    out = {}
    cur = None
    for l in e.decode('utf-8', 'replace').split('\n'):
        m = re.match(r'(.*?):(\d+):\d+: (fatal error|error|note): (.*)', l)
        if not m:
            continue
        if m.group(3) != 'note':
            cur = m.group(4)
        if m.group(1) == path and cur is not None:
            i = int(m.group(2)) - first
            if 0 <= i < len(lines):
                out.setdefault(i, cur)
            elif m.group(3) != 'note':
                raise RuntimeError('error outside of the cases: ' + l[:300])
    if rc and not out:
        raise RuntimeError('no case found for the errors: ' + e.decode('utf-8', 'replace')[:400])
    return out


NAMES_FN = '''
template <typename T> void walk_names(std::string& o)
{
    o += " " + nm<T>();
    if constexpr (ar::is_tree_node_v<T>) {
        walk_pols(static_cast<typename T::policies_type*>(nullptr), o);
        walk_kids(static_cast<typename T::children_type*>(nullptr), o);
    }
}
template <typename... P> void walk_pols(std::tuple<P...>*, std::string& o) { (walk_names<P>(o), ...); }
template <typename... P> void walk_kids(std::tuple<P...>*, std::string& o) { (walk_names<P>(o), ...); }
'''


def log_tu(cases):
    s = PRE.replace('#pragma once', '') + '''
template <typename T> void walk_names(std::string& o);
template <typename... P> void walk_pols(std::tuple<P...>*, std::string& o);
template <typename... P> void walk_kids(std::tuple<P...>*, std::string& o);
''' + NAMES_FN
    m = ''
    for i, c in enumerate(cases):
        s += c.line(i) + '\n'
        m += '    trace.clear(); c%d(); { std::string o; walk_names<T%d>(o); std::printf("%%s;%%s\\n", o.c_str(), trace.c_str()); }\n' % (i, i)
    return s + 'IRoot* make_root(unsigned) { return nullptr; }\nint main()\n{\n' + m + '}\n'


def judge_log(case, line):
    """-> None or what is wrong"""
    names, trace = line.split(';')
    names = names.split()
    vis = list(visit(case.root))
    if len(names) != len(vis):
        return 'the tree has %d nodes and policies, %d expected' % (len(names), len(vis))
    by = {}
    for (x, par), n in zip(vis, names):
        by[id(x) if is_node(x) else (x, id(par[0]))] = n

    def name(x, par):
        return by[id(x) if is_node(x) else (x, id(par[0]))]
    why, log, _ = verdict(case.rules(), case.root)
    exp = ['L%d:%s' % (i, ','.join([name(x, par)] + [by[id(n)] for n in par])) for i, x, par in log]
    got = trace.split()
    if got == exp:
        return None
    k = [i for i, (a, c) in enumerate(zip(got + [None], exp + [None])) if a != c]
    k = k[0] if k else min(len(got), len(exp))
    inv = {n: tmpl(x) for (x, _), n in zip(vis, names)}

    def show(e):
        i, p = e.split(':')
        return '%s(%s)' % (i, ' < '.join(inv.get(q, '?') for q in p.split(',')))
    return 'condition %d applied is %s, expected %s' % (k, show(got[k]) if k < len(got) else 'none', show(exp[k]) if k < len(exp) else 'none')


def smaller(c):
    out = []
    for i in range(len(c.start)):
        out.append(Case(c.root, c.start[:i] + c.start[i + 1:], c.ops))
        for j in range(len(c.start[i][1])):
            p, cs = c.start[i]
            out.append(Case(c.root, c.start[:i] + [(p, cs[:j] + cs[j + 1:])] + c.start[i + 1:], c.ops))
    for i in range(len(c.ops)):
        out.append(Case(c.root, c.start, c.ops[:i] + c.ops[i + 1:]))
    if c.ops:
        out.append(Case(c.root, c.rules(), []))
    nodes = list(c.root.walk())
    for i, n in enumerate(nodes):
        for j in range(len(n.ch)):
            t = copy.deepcopy(c.root)
            del list(t.walk())[i].ch[j]
            out.append(Case(t, c.start, c.ops))
        for j, p in enumerate(n.pols):
            if p[0] != 'U':
                t = copy.deepcopy(c.root)
                del list(t.walk())[i].pols[j]
                out.append(Case(t, c.start, c.ops))
    good = []
    for x in out:
        try:
            rs = x.start
            for o in x.ops:
                if o[0] in ('insert',) and o[1] > len(rs) or o[0] in ('remove', 'update', 'add') and o[1] >= len(rs):
                    raise IndexError
                if o[0] in ('add', 'add_by') and o[0] == 'add' and rs[o[1]][0][0] not in ('any', 'none'):
                    raise IndexError
                rs = apply_op(rs, o)[0]
            if rs:
                good.append(x)
        except IndexError:
            pass
    return good


def C30(ctx):
    ctx.rule = ('generated rule lists (documented conditions or recording ones, any predicate), edited by sequences of the validator '
                'utilities, applied to generated trees of user-defined nodes and policies; verdict of the compiler, or the conditions applied '
                'with their ancestors, compared with an own evaluation; non-trivial: a condition is evaluated, and one of the same kind gives '
                'both answers in the run, or an edited list of at least two rules records conditions')
    b = Build()
    b.prepare()
    bad = []
    try:
        per = 20
        total = 40 if ctx.quick else 480
        kinds = {}

        def unit(u):
            if u and ctx.late():
                return None
            r = ctx.rng('verdict', u)
            cs = [Gen(r).case() for _ in range(per)]
            return cs, verdicts(b, 'v%d' % u, cs)

        def logunit(u):
            if u and ctx.late():
                return None
            r = ctx.rng('log', u)
            cs = [Gen(r, True).case() for _ in range(24)]
            try:
                exe = compile_log(b, 'l%d' % u, cs)
            except CompileError as e:
                return cs, e
            rc, o, e = run([exe], 60)
            os.unlink(exe)
            return cs, o.decode().split('\n')[:-1]
        with ThreadPoolExecutor(JOBS) as ex:
            for got in ex.map(unit, range(total)):
                if got is None:
                    continue
                cs, errs = got
                for i, c in enumerate(cs):
                    why, _, seen = verdict(c.rules(), c.root)
                    for s in seen:
                        kinds.setdefault(s[0], set()).add(s[1])
                        ctx.cls('%s:%s' % s)
                    nt = bool(seen)
                    ctx.case(c.dump(), nt, dict(tree=typ(c.root, 0)[:300], rules=c.cpp_rules()[:400], refused=why) if nt else None)
                    ctx.cls('refused' if why else 'accepted')
                    if bool(why) != (i in errs):
                        ctx.cls('mismatches')
                        bad.append(('verdict', c))
            for got in ex.map(logunit, range(total // 4)):
                if got is None:
                    continue
                cs, lines = got
                if isinstance(lines, CompileError):
                    # find the case
                    for i, e in verdicts(b, 'lx', cs).items():
                        bad.append(('verdict', cs[i]))
                    if not bad:
                        raise RuntimeError('recording conditions do not compile: ' + lines.text[:600])
                    continue
                if len(lines) != len(cs):
                    raise RuntimeError('%d lines for %d cases' % (len(lines), len(cs)))
                for c, l in zip(cs, lines):
                    w = judge_log(c, l)
                    nt = len(c.rules()) > 1
                    ctx.case('L' + c.dump(), nt, dict(tree=typ(c.root, 0)[:300], rules=c.cpp_rules()[:400], recorded=l.split(';')[1].count('L')) if nt and len(c.ops) > 1 else None)
                    ctx.cls('recorded')
                    for o in c.ops:
                        ctx.cls('op:' + o[0])
                    if w:
                        ctx.cls('mismatches')
                        bad.append(('log', c))
        for k in sorted(kinds):
            if len(kinds[k]) < 2:
                ctx.notes.append('condition %s gave one answer only' % k)
        bad.sort(key=lambda x: len(x[1].dump()))
        done = set()
        for kind, c in bad:
            if len(done) >= 3:
                break
            report(ctx, b, kind, c, done)
    finally:
        b.close()
    ctx.assumptions += ['conditions on nodes are given to rules that select nodes, conditions on policies to rules that select policies',
                        'no node holds the same policy type twice']


def compile_log(b, name, cs):
    path = '%s/%s.cpp' % (b.dir, name)
    with open(path, 'w') as f:
        f.write(log_tu(cs))
    from srv import compile_cmd
    compile_cmd([b.cxx] + b.base + b.inc + [path, '-o', path[:-4]])
    return path[:-4]


def wrong(b, kind, cases):
    """-> list of None or what is wrong"""
    if kind == 'verdict':
        errs = verdicts(b, 'w', cases)
        out = []
        for i, c in enumerate(cases):
            why = verdict(c.rules(), c.root)[0]
            out.append(None if bool(why) == (i in errs) else
                       'compiles, although it is to be refused by ' + why if why else 'refused (%s), although all conditions hold' % errs[i][:300])
        return out
    try:
        exe = compile_log(b, 'w', cases)
    except CompileError:
        return [None] * len(cases)
    rc, o, e = run([exe], 60)
    return [judge_log(c, l) for c, l in zip(cases, o.decode().split('\n'))]


def report(ctx, b, kind, c, done):
    what = wrong(b, kind, [c])[0]
    if not what:
        ctx.cls('unconfirmed')
        return
    t_end = min(time.time() + 60, ctx.t0 + 780)
    while time.time() < t_end:
        cands = smaller(c)
        if kind == 'log':
            cands = [x for x in cands if any(q[0] == ('fn', 'always') for q in x.rules())]
        if not cands:
            break
        w = wrong(b, kind, cands)
        hit = [(len(x.dump()), i) for i, x in enumerate(cands) if w[i]]
        if not hit:
            break
        c, what = cands[min(hit)[1]], w[min(hit)[1]]
    key = (kind, c.cpp_rules())
    if key in done:
        return
    done.add(key)
    ctx.violation('%s with the rules %s: %s' % (typ(c.root, 0), c.cpp_rules(), what),
                  dict(module='checks_vrules', kind=kind, case=c.dump(), cpp=PRE + c.line(0), what_is_wrong=what))


def replay(d):
    b = Build()
    try:
        b.prepare()
        c = load(d['case'])
        w = wrong(b, d['kind'], [c])[0]
        print(w or 'as expected')
        return 1 if w else 0
    finally:
        b.close()


CHECKS = dict(C30=C30)
TECH = dict(C30='property-based testing: generated rule lists, edited by the validator utilities, on generated trees; oracle: an own evaluation of the documented conditions against the verdict of the compiler and recording conditions')
