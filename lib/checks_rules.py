"""C24: trees breaking one structural rule are refused by the compiler, trees keeping all of them are accepted."""
import os
import re
from concurrent.futures import ThreadPoolExecutor

from gen import Cfg, TreeGen, VECT
from srv import JOBS, Build, CompileError
from tree import Emit, Node, value_type, walk_parents

PRELUDE = '''#include <map>
struct TrX { using error_code_translations = std::tuple<std::pair<ar::traits::integral_constant<ar::error_code::unknown_argument>, ar::str<"unk">>>; };
struct TrY { using error_code_translations = std::tuple<std::pair<ar::traits::integral_constant<ar::error_code::unknown_argument>, ar::str<"unk2">>>; };
'''
NAMED = ('flag', 'cflag', 'arg', 'marg')
LEAF = NAMED + ('pos', 'fwd')


def parents(t):
    return {id(n): ps for n, ps in walk_parents(t)}


def scopes(t):
    """name spaces: the named leaves under a mode or the root, not those of nested modes"""
    def under(n):
        for c in n.ch:
            if c.k != 'mode':
                yield c
                for x in under(c):
                    yield x
    return [(s, list(under(s))) for s in t.walk() if s.k in ('mode', 'root')]


def referenced(t):
    return {nm for n in t.walk() for _, nm in (n.alias or []) + (n.deps or [])}


def pick(r, t, kinds, pred=lambda n: True):
    c = [n for n in t.walk() if n.k in kinds and pred(n)]
    return r.choice(c) if c else None


def add(n, *texts):
    n.extra = (n.extra or []) + list(texts)


def fresh_leaf(kind='flag', **kw):
    return Node(k=kind, perm=0, **kw)


RULES = []           # (name, expected text in the diagnostics, function)


def rule(name, text):
    def f(fn):
        RULES.append((name, text, fn))
        return fn
    return f


# ---- names
@rule('long name used twice', 'Policy must be unique in the parse tree up to')
def _(r, t):
    ref = referenced(t)
    sc = [(a, b) for _, ns in scopes(t) for a in ns for b in ns if a is not b and a.long and b.k in NAMED + ('help',) and b.long not in ref and b.short not in ref]
    if not sc:
        return False
    a, b = r.choice(sc)
    b.long = a.long
    return True


@rule('short name used twice', 'Policy must be unique in the parse tree up to')
def _(r, t):
    ref = referenced(t)
    sc = [(a, b) for _, ns in scopes(t) for a in ns for b in ns if a is not b and a.short and b.k in NAMED + ('help',) and b.long not in ref and b.short not in ref]
    if not sc:
        return False
    a, b = r.choice(sc)
    b.short = a.short
    if b.long is None:
        b.bare = False
    return True


@rule('node repeated', 'Policy must be unique in the parse tree up to')
def _(r, t):
    ps = parents(t)
    n = pick(r, t, ('flag', 'arg', 'cflag'), lambda n: ps[id(n)][0].k == 'mode' and not n.alias)
    if not n:
        return False
    p = ps[id(n)][0]
    p.lists = None
    c = n.clone()
    p.ch.insert(p.ch.index(n), c)
    return True


@rule('forwarding name used twice', 'Policy must be unique in the parse tree up to')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    for k in (2, r.choice([2, 3])):
        m.ch.insert(0, Node(k='fwd', none='--xx', mnc=k, mxc=k, perm=0))
    return True


def forbid(kinds, policy, text, pred=lambda n: True, name=None):
    """a policy no node of these kinds may have"""
    for k in kinds:
        def fn(r, t, k=k):
            n = pick(r, t, (k,), pred)
            if not n:
                return False
            n.bare = False
            add(n, policy)
            return True
        RULES.append(((name or policy.split('<')[0].split('{')[0].split('(')[0].replace('arp::', '')) + ' on ' + k, text, fn))


forbid(('flag', 'cflag', 'arg', 'marg', 'help'), 'arp::display_name_t{"Disp"_S}', '')
forbid(('mode',), 'arp::display_name_t{"Disp"_S}', '')
forbid(('fwd',), 'arp::display_name_t{"Disp"_S}', '')
forbid(('flag', 'cflag', 'arg', 'marg', 'pos', 'help'), 'arp::none_name_t{"none"_S}', '')
forbid(('oneof', 'agroup'), 'arp::none_name_t{"none"_S}', '')
forbid(('mode', 'pos', 'fwd', 'oneof', 'agroup'), 'arp::long_name_t{"longone"_S}', '')
forbid(('mode', 'pos', 'fwd', 'oneof', 'agroup'), 'arp::short_name_t{"Q"_S}', '')
forbid(('oneof', 'agroup'), 'arp::description_t{"Desc"_S}', '')
forbid(('mode',), 'arp::description_t{"Desc"_S}', '', lambda n: n.none is None, name='description on anonymous')
forbid(('mode',), 'arp::error_name_t{"Err"_S}', '', lambda n: n.none is not None, name='error_name on named')
forbid(('root',), 'arp::long_name_t{"longone"_S}', '')
forbid(('root',), 'arp::none_name_t{"none"_S}', '')
forbid(('root',), 'arp::description_t{"Desc"_S}', '')
forbid(('flag', 'cflag', 'arg', 'marg', 'pos', 'fwd', 'help', 'oneof', 'agroup'), 'arp::validation::validator<>{}', '')
forbid(('flag', 'cflag', 'mode', 'help'), 'arp::required', '')
forbid(('flag', 'cflag', 'arg', 'marg', 'pos', 'fwd', 'oneof', 'agroup', 'root'), 'arp::no_result_value<>{}', '', lambda n: not n.alias)
forbid(('flag', 'arg', 'marg', 'pos', 'fwd', 'oneof', 'mode', 'root', 'help'),
       'arp::multi_stage_value<int, int>{[](std::optional<int>& r, int&& v) { r = v; }}', '')
forbid(('root', 'help'), 'arp::runtime_enable{true}', '')
forbid(('root', 'mode'), 'arp::runtime_enable_required<int>{true}', '')
forbid(('help',), 'arp::short_form_expander', '')
forbid(('arg',), 'arp::short_form_expander', 'Short-form expansion support requires a short name policy', lambda n: not n.short,
       name='short_form_expander without short name')
forbid(('mode', 'flag', 'cflag', 'arg', 'marg', 'pos', 'fwd', 'help', 'oneof', 'agroup'), 'arp::exception_translator<TrX>', '')
forbid(('flag', 'cflag'), 'arp::custom_parser<int>{[](std::string_view) { return 1; }}', '')
forbid(('mode', 'root', 'oneof', 'agroup'), 'arp::custom_parser<int>{[](std::string_view) { return 1; }}', '')
forbid(('flag', 'mode', 'root', 'oneof'), 'arp::min_value<1>()', '')
forbid(('root', 'oneof', 'agroup'), 'arp::value_separator<\'=\'>', '')
forbid(('mode', 'root'), 'arp::default_value{1}', '')


def alias_in_scope(r, t, kinds, pol, name, pred=lambda n: True):
    def fn(r, t):
        sc = [(b, a) for _, ns in scopes(t) for a in ns if a.k in ('flag',) and a.long for b in ns if b is not a and b.k in kinds and pred(b)]
        if not sc:
            return False
        b, a = r.choice(sc)
        add(b, 'arp::%s(arp::long_name_t{"%s"_S})' % (pol, a.long))
        return True
    RULES.append((name, '', fn))


alias_in_scope(None, None, ('pos',), 'alias', 'alias on pos')


@rule('alias on mode', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: any(c.k == 'flag' and c.long for c in m.ch))
    if not m:
        return False
    add(m, 'arp::alias(arp::long_name_t{"%s"_S})' % r.choice([c.long for c in m.ch if c.k == 'flag' and c.long]))
    return True


@rule('dependent on mode', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: any(c.k in NAMED and c.long for c in m.ch))
    if not m:
        return False
    add(m, 'arp::dependent(arp::long_name_t{"%s"_S})' % r.choice([c.long for c in m.ch if c.k in NAMED and c.long]))
    return True


# ---- required / default / enable
@rule('required and default', 'Parent must not have this policy')
def _(r, t):
    n = pick(r, t, ('arg', 'marg', 'pos', 'oneof', 'agroup'), lambda n: n.dflt is not None)
    if not n:
        return False
    add(n, 'arp::required')
    if n.k == 'pos' and n.counts()[0] == 0:
        return False
    return True


@rule('default and required', 'Parent must not have this policy')
def _(r, t):
    n = pick(r, t, ('arg', 'marg', 'pos', 'fwd'), lambda n: n.req)
    if not n:
        return False
    add(n, 'arp::default_value<%s>{{}}' % value_type(n))
    return True


@rule('required positional with minimum count 0', 'T must have a minimum count of at least 1 if required')
def _(r, t):
    n = pick(r, t, ('pos',), lambda n: n.counts()[0] == 0 and n.dflt is None and n.en is None)
    if not n:
        return False
    n.req = True
    return True


@rule('runtime_enable and required', 'Runtime enable must not be used with policy::required')
def _(r, t):
    n = pick(r, t, ('arg', 'marg', 'pos', 'fwd'), lambda n: n.req and n.en is None)
    if not n:
        return False
    add(n, 'arp::runtime_enable{true}')
    return True


def group_child(what):
    def fn(r, t):
        g = pick(r, t, ('oneof', 'agroup'), lambda g: any(c.k in ('arg', 'marg') for c in g.ch))
        if not g:
            return False
        c = r.choice([c for c in g.ch if c.k in ('arg', 'marg')])
        if what == 'req':
            c.req = True
        else:
            add(c, 'arp::default_value<%s>{{}}' % value_type(c))
        return True
    return fn


RULES.append(('required on one child of a group', '', group_child('req')))
RULES.append(('default_value on one child of a group', '', group_child('dflt')))


@rule('required on one child of the root', '')
def _(r, t):
    n = Node(k='arg', long='rootarg', vt='int', rid=90, req=True, perm=0)
    t.lists = None
    t.ch.insert(0, n)
    return True


@rule('alias on a child of the root', '')
def _(r, t):
    t.lists = None
    t.ch.insert(0, Node(k='flag', long='rootone', rid=90, perm=0))
    t.ch.insert(r.choice([0, 1]), Node(k='flag', long='roottwo', alias=[('L', 'rootone')], perm=0))
    return True


# ---- routing and ancestry
@rule('router inside a mode', '')
def _(r, t):
    ps = parents(t)
    n = pick(r, t, LEAF + ('oneof', 'agroup'), lambda n: ps[id(n)][0].k == 'mode' and not n.alias)
    if not n:
        return False
    n.rid = 91
    return True


@rule('router inside a group', '')
def _(r, t):
    ps = parents(t)
    n = pick(r, t, NAMED, lambda n: ps[id(n)][0].k in ('oneof', 'agroup'))
    if not n:
        return False
    n.rid = 91
    return True


@rule('root child without router', 'All root children must have routers')
def _(r, t):
    t.lists = None
    t.ch.insert(0, r.choice([Node(k='flag', long='rootone', perm=0), Node(k='arg', long='rootarg', vt='int', perm=0), Node(k='cflag', long='rootcnt', vt='int', perm=0)]))
    return True


@rule('group under the root', 'Parent must be one of a set of types')
def _(r, t):
    g = pick(r, t, ('oneof', 'agroup'), lambda g: not any(c.deps for c in g.ch))
    if not g or any(referenced(t) & {c.long, c.short} for c in g.ch):
        return False
    for c in g.ch:
        if c.long:
            c.long = 'zz' + c.long
        if c.short:
            c.short, c.long = None, c.long or 'zzx' + str(g.ch.index(c))
    c = g.clone()
    for s in t.walk():
        if g in s.ch:
            if len(s.ch) == 1:
                return False
            s.lists = None
            s.ch.remove(g)
    t.lists = None
    c.rid = 92
    t.ch.insert(0, c)
    return True


@rule('help inside a mode', 'Parent must be one of a set of types')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.ch and m.ch[0].k != 'mode')
    if not m:
        return False
    m.lists = None
    m.ch.insert(0, Node(k='help', long='zhelp', desc=None, perm=0))
    return True


@rule('mode in an anonymous mode', 'Anonymous mode cannot have a child mode')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.none is None)
    if not m:
        return False
    m.lists = None
    m.ch.insert(0, Node(k='mode', none='inner', rid=93, perm=0, ch=[fresh_leaf(long='innerflag')]))
    return True


@rule('group inside a group', '')
def _(r, t):
    g = pick(r, t, ('oneof', 'agroup'))
    if not g:
        return False
    c = Node(k='oneof', perm=0, req=True, ch=[fresh_leaf(long='gia'), fresh_leaf('arg', long='gib', vt='int')])
    g.ch.insert(r.randrange(len(g.ch) + 1), c)
    return True


@rule('group with one child', '')
def _(r, t):
    ref = referenced(t)
    g = pick(r, t, ('oneof', 'agroup'), lambda g: not any({c.long, c.short} & ref for c in g.ch) and (g.k != 'oneof' or g.dflt is None))
    if not g:
        return False
    g.ch = g.ch[:1]
    return True


@rule('counting flag in a one_of', '')
def _(r, t):
    g = pick(r, t, ('oneof',))
    if not g:
        return False
    g.ch.append(fresh_leaf('cflag', long='oocount', vt='int'))
    return True


@rule('group without default or required', '')
def _(r, t):
    g = pick(r, t, ('oneof', 'agroup'))
    if not g:
        return False
    g.req, g.dflt = False, None
    return True


@rule('alias group of different types', '')
def _(r, t):
    g = pick(r, t, ('agroup',))
    if not g:
        return False
    g.ch.append(fresh_leaf('arg', long='agother', vt='std::map<int, int>', extra=['arp::custom_parser<std::map<int, int>>{[](std::string_view) { return std::map<int, int>{}; }}']))
    return True


@rule('policies and children in a leaf', '')
def _(r, t):
    n = pick(r, t, NAMED)
    if not n:
        return False
    add(n, 'ar::flag(arp::long_name_t{"inner"_S})')
    return True


@rule('root without child', 'Root must have at least one child')
def _(r, t):
    t.ch, t.lists = [], None
    return True


@rule('mode without child', 'Mode must have at least one child node')
def _(r, t):
    m = pick(r, t, ('mode',))
    if not m:
        return False
    m.ch, m.lists = [], None
    return True


@rule('mode without router', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and any(c.k != 'mode' for c in m.ch))
    if not m:
        return False
    m.rid = None
    return True


@rule('root without validator', 'Root must have a validator policy')
def _(r, t):
    return lambda s: re.sub(r'arp::validation::default_validator,|,\s*arp::validation::default_validator(?=\))', '', s, count=1)


@rule('router with too many parameters', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and any(c.k != 'mode' and not c.no_result() for c in m.ch))
    if not m:
        return False
    m.rid = None
    add(m, 'arp::router{[](auto...) -> void { static_assert(true); }}' if False else
        'arp::router{[](%s) {}}' % ', '.join(['int'] * (len([c for c in m.ch if not c.no_result()]) + r.choice([1, -1]))))
    return len([c for c in m.ch if not c.no_result()]) >= 1


@rule('two anonymous modes', '')
def _(r, t):
    ms = [m for m in t.ch if m.k == 'mode' and m.none is None]
    if not ms:
        return False
    t.lists = None
    t.ch.append(Node(k='mode', rid=94, perm=0, ch=[fresh_leaf(long='otherflag')]))
    return True


@rule('anonymous mode not at the end', 'Node types must all appear at the end')
def _(r, t):
    if not any(m.k == 'mode' and m.none is None for m in t.ch):
        return False
    t.lists = None
    t.ch.append(Node(k='flag', long='rootlast', rid=95, perm=0))
    return True


@rule('positional before another node', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: any(c.k == 'pos' for c in m.ch))
    if not m:
        return False
    m.lists = None
    i = r.choice([i for i, c in enumerate(m.ch) if c.k == 'pos'])
    m.ch.insert(i + 1, r.choice([fresh_leaf(long='afterpos'), fresh_leaf('arg', long='afterpos', vt='int'), fresh_leaf('cflag', long='afterpos', vt='int'),
                                 fresh_leaf('marg', long='afterpos', vt='std::vector<int>', mnc=2, mxc=2)]))
    m.rid = None
    add(m, 'arp::router{[](auto&&...) {}}')
    return True


def varlen(c):
    cn = c.counts() if c.k in ('marg', 'pos', 'fwd') else None
    return cn is not None and cn[0] != cn[1] and not c.marker


@rule('two variable length children', 'There can only be one variable length list-like child')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: any(varlen(c) for c in m.ch))
    if not m:
        return False
    m.lists = None
    m.ch.insert(0, Node(k='marg', long='othervar', vt='std::vector<int>', perm=0))
    m.rid = None
    add(m, 'arp::router{[](auto&&...) {}}')
    return True


@rule('variable length child not at the end', 'Variable length list-like child must be at end')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and not any(varlen(c) for c in m.ch) and m.ch)
    if not m:
        return False
    m.lists = None
    m.ch.insert(r.randrange(len([c for c in m.ch if c.k != 'pos']) or 1) if m.ch[0].k != 'pos' else 0,
                Node(k='marg', long='varmid', vt='std::vector<int>', perm=0, mnc=r.choice([None, 1]), mxc=None))
    m.rid = None
    add(m, 'arp::router{[](auto&&...) {}}')
    return m.ch[-1].long != 'varmid'


# ---- policy twice
TWICE = [('error_name_t{"Err"_S}', LEAF), ('description_t{"Desc"_S}', ('flag', 'cflag', 'arg', 'marg', 'pos')), ('runtime_enable{true}', ('flag', 'cflag')),
         ('default_value<int>{1}', ('cflag',)), ('flatten_help', ('help',)), ('program_name_t{"prog"_S}', ('help',)),
         ('exception_translator<TrX>', ('root',)), ('custom_parser<int>{[](std::string_view) { return 1; }}', ('arg',)),
         ("value_separator<'='>", ('arg',)), ('display_name_t{"Dd"_S}', ('oneof', 'agroup')), ('min_value<1>()', ('cflag',))]
for _pol, _kinds in TWICE:
    def _twice(r, t, pol=_pol, kinds=_kinds):
        def ok(n):
            return not (pol[:6] == 'custom' and (n.cust or n.vt != 'int')) and not (pol[:4] == 'desc' and n.desc is not None) and not (
                pol[:7] == 'default' and (n.vt != 'int' or n.dflt is not None)) and not (pol[:3] == 'run' and n.en is not None) and not (
                pol[:5] == 'value' and n.sep) and not (pol[:7] == 'display' and n.disp) and not (pol[:4] == 'flat' and n.flat) and not (
                pol[:4] == 'prog' and (n.pre or {}).get('name')) and not (pol[:3] == 'min' and (n.vt != 'int' or n.minv is not None or n.maxv is not None))
        n = pick(r, t, kinds, ok)
        if not n:
            return False
        n.bare = False
        add(n, 'arp::' + pol, 'arp::' + pol)
        return True
    RULES.append(('twice: ' + _pol.split('<')[0].split('{')[0], '', _twice))


for _a, _b, _kinds in [('error_name_t{"Err"_S}', 'error_name_t{"Er2"_S}', ('flag', 'cflag', 'arg', 'pos')), ('program_name_t{"prog"_S}', 'program_name_t{"prog2"_S}', ('help',)),
                       ('exception_translator<TrX>', 'exception_translator<TrY>', ('root',)), ("value_separator<'='>", "value_separator<':'>", ('arg',)),
                       ('description_t{"Desc"_S}', 'description_t{"Desc2"_S}', ('flag', 'cflag', 'arg')), ('min_value<1>()', 'min_max_value<1, 9>()', ('cflag', 'arg')),
                       ('display_name_t{"Dd"_S}', 'display_name_t{"De"_S}', ('oneof', 'agroup'))]:
    def _twice2(r, t, a=_a, b=_b, kinds=_kinds):
        n = pick(r, t, kinds, lambda n: not n.desc and not n.err and not n.disp and not n.sep and not n.pre and not n.alias and
                 n.minv is None and n.maxv is None and (n.k not in ('cflag', 'arg') or n.vt == 'int' or a[:3] != 'min') or n.k == 'pos' and not n.err and not n.desc)
        if not n:
            return False
        n.bare = False
        add(n, 'arp::' + a, 'arp::' + b)
        return True
    RULES.append(('two different: ' + _a.split('<')[0].split('{')[0].split('(')[0], '', _twice2))


def dup_existing(attr, text):
    def fn(r, t):
        n = pick(r, t, LEAF + ('help',), lambda n: getattr(n, attr) is not None and not (attr == 'short' and n.k == 'help'))
        if not n:
            return False
        n.bare = False
        add(n, text % getattr(n, attr) if '%' in text else text)
        return True
    return fn


RULES.append(('two long names', '', dup_existing('long', 'arp::long_name_t{"other-name"_S}')))
RULES.append(('two short names', '', dup_existing('short', 'arp::short_name_t{"Q"_S}')))
RULES.append(('two display names', '', dup_existing('disp', 'arp::display_name_t{"Other"_S}')))
RULES.append(('two none names', '', dup_existing('none', 'arp::none_name_t{"other"_S}')))
RULES.append(('two markers', '', dup_existing('marker', 'arp::token_end_marker_t{"mm"_S}')))


@rule('two routers', '')
def _(r, t):
    n = pick(r, t, LEAF + ('mode',), lambda n: n.rid is not None)
    if not n:
        return False
    add(n, 'arp::router{[](auto&&...) {}}')
    return True


@rule('two counts', '')
def _(r, t):
    n = pick(r, t, ('marg', 'pos', 'fwd'), lambda n: n.mnc is not None)
    if not n:
        return False
    add(n, r.choice(['arp::min_count<%d>' % n.mnc, 'arp::fixed_count<%d>' % (n.mnc or 2)]))
    return True


@rule('two required', '')
def _(r, t):
    n = pick(r, t, LEAF + ('oneof', 'agroup'), lambda n: n.req)
    if not n:
        return False
    add(n, 'arp::required')
    return True


@rule('two aliases', '')
def _(r, t):
    n = pick(r, t, NAMED, lambda n: n.alias)
    if not n:
        return False
    k, nm = n.alias[0]
    add(n, 'arp::alias(arp::%s_name_t{"%s"_S})' % ('long' if k == 'L' else 'short', nm))
    return True


@rule('two validators', '')
def _(r, t):
    add(t, 'arp::validation::default_validator')
    return True


# ---- counts and values
@rule('multi_arg count of one', 'Multi arg set to a fixed count of 1')
def _(r, t):
    n = pick(r, t, ('marg',), lambda n: not n.alias and not n.marker)
    if not n:
        return False
    n.mnc = n.mxc = 1
    return True


@rule('multi_arg minimum count of zero', '')
def _(r, t):
    ps = parents(t)
    n = pick(r, t, ('marg',), lambda n: not n.alias and (n.marker or ps[id(n)][0].k == 'mode' and ps[id(n)][0].ch[-1] is n))
    if not n:
        return False
    n.mnc, n.mxc = 0, r.choice([3, None])
    return True


@rule('fixed count of zero', '')
def _(r, t):
    n = pick(r, t, ('marg', 'pos', 'fwd'), lambda n: not n.alias and not n.marker and not n.req)
    if not n:
        return False
    n.mnc = n.mxc = 0
    return True


@rule('minimum count over maximum count', 'MinType must be less than or equal to MaxType')
def _(r, t):
    n = pick(r, t, ('marg', 'pos', 'fwd'), lambda n: not n.alias)
    if not n:
        return False
    n.mnc, n.mxc = r.choice([(3, 2), (2, 1), (9, 3)])
    return True


@rule('minimum value over maximum value', 'MinType must be less than or equal to MaxType')
def _(r, t):
    n = pick(r, t, ('cflag', 'arg'), lambda n: n.vt in ('int', 'long long', 'short') and not n.alias and n.dflt is None and not n.cust and not n.enreq)
    if not n:
        return False
    n.minv, n.maxv = r.choice([(3, 2), (1, 0), (5, -5)])
    n.rtb = n.bint = False
    ps = parents(t)
    return ps[id(n)][0].k not in ('agroup',) or n.k == 'arg'


@rule('bounds of different types', '')
def _(r, t):
    n = pick(r, t, ('arg',), lambda n: n.vt in ('int', 'long long') and n.minv is None and n.maxv is None and not n.alias)
    if not n:
        return False
    add(n, 'arp::min_max_value<1, 2LL>()')
    return True


# ---- strings
BAD = [('long_name_t{"x"_S}', 'long', 'Long names must be longer than one character', 'long name of one character'),
       ('long_name_t{"\u65e5"_S}', 'long', 'Long names must be longer than one character', 'long name of one multi-byte character'),
       ('long_name_t{"a b"_S}', 'long', 'Long names cannot contain whitespace', 'long name with space'),
       ('long_name_t{"ab\\t"_S}', 'long', 'Long names cannot contain whitespace', 'long name with tab'),
       ('long_name_t{"a\u3000b"_S}', 'long', 'Long names cannot contain whitespace', 'long name with ideographic space'),
       ('short_name_t{"QQ"_S}', 'short', 'Short name must only be', 'short name of two characters'),
       ('short_name_t{"\u00e9\u00e9"_S}', 'short', 'Short name must only be', 'short name of two multi-byte characters'),
       ('short_name_t{""_S}', 'short', 'Short name must only be', 'empty short name'),
       ('none_name_t{"b c"_S}', 'none', 'None names cannot contain whitespace', 'none name with space'),
       ('none_name_t{"b"_S}', 'none', 'None names must be longer than one character', 'none name of one character'),
       ('display_name_t{""_S}', 'disp', 'Display name must not be empty', 'empty display name'),
       ('description_t{""_S}', 'desc', 'Descriptions must not be empty', 'empty description'),
       ('description_t{"a\\tb"_S}', 'desc', 'Help descriptions cannot contain tabs', 'description with a tab'),
       ('error_name_t{""_S}', 'err', 'Error name must not be empty', 'empty error name'),
       ('token_end_marker_t{""_S}', 'marker', 'Token end markers must not be an empty string', 'empty marker'),
       ('token_end_marker_t{"a b"_S}', 'marker', 'Token end markers cannot contain whitespace', 'marker with whitespace'),
       ('value_separator_utf8<ar::str<"==">>', 'sep', 'Value separator must only be one character', 'separator of two characters'),
       ('value_separator_utf8<ar::str<" ">>', 'sep', 'Value separator character must not be whitespace', 'separator of whitespace'),
       ('value_separator_utf8<ar::str<"">>', 'sep', 'Value separator must only be one character', 'empty separator')]
for _pol, _attr, _text, _name in BAD:
    def _bad(r, t, pol=_pol, attr=_attr):
        ref = referenced(t)
        if '\\t' in pol and attr == 'desc' and not pick(r, t, ('help',)):
            return False             # only looked at when there is a help node
        if attr in ('desc', 'err'):
            n = pick(r, t, ('flag', 'cflag', 'arg', 'marg', 'pos') + (('help',) if attr == 'desc' else ()))
        else:
            n = pick(r, t, LEAF + ('help', 'mode', 'oneof', 'agroup'), lambda n: getattr(n, attr) is not None and getattr(n, attr) not in ref)
        if not n:
            return False
        n.bare = False
        setattr(n, attr, None)
        add(n, 'arp::' + pol)
        return True
    RULES.append((_name, _text, _bad))

for _pol, _text, _name in [('program_name_t{"p"_S}', 'Program names must be longer', 'program name of one character'),
                           ('program_name_t{"p q"_S}', 'Program names cannot contain whitespace', 'program name with space'),
                           ('program_version_t{"1"_S}', 'Program version string must be longer', 'version of one character'),
                           ('program_intro_t{"i"_S}', 'Program intro must be longer', 'intro of one character'),
                           ('program_addendum_t{"a"_S}', 'Program addendum must be longer', 'addendum of one character'),
                           ('default_help_formatter_t<ar::traits::integral_constant<std::size_t{0}>, ar::traits::integral_constant<std::size_t{8}>>{}',
                            'Indent', 'indent of zero')]:
    def _prog(r, t, pol=_pol):
        n = pick(r, t, ('help',))
        if not n:
            return False
        n.pre, n.fmt, n.bare = None, None, False
        add(n, 'arp::' + pol)
        return True
    RULES.append((_name, _text, _prog))


@rule('no name', '')
def _(r, t):
    n = pick(r, t, ('flag', 'cflag', 'help', 'arg', 'marg'), lambda n: not {n.long, n.short} & referenced(t))
    if not n:
        return False
    n.long = n.short = n.desc = None
    return True


@rule('positional without display name', 'Positional arg must have a display name policy')
def _(r, t):
    n = pick(r, t, ('pos',))
    if not n:
        return False
    n.disp, n.bare = None, False
    return True


@rule('separator on a list', '')
def _(r, t):
    n = pick(r, t, ('marg', 'pos', 'fwd'), lambda n: n.counts() != (1, 1))
    if not n:
        return False
    add(n, "arp::value_separator<'='>")
    return True


@rule('separator on a flag', '')
def _(r, t):
    n = pick(r, t, ('flag', 'cflag'))
    if not n:
        return False
    add(n, "arp::value_separator<'='>")
    return True


@rule('marker on a fixed count', 'Token end marker can only be used in variable')
def _(r, t):
    n = pick(r, t, ('marg', 'pos', 'fwd', 'arg', 'flag', 'cflag'), lambda n: n.counts()[0] == n.counts()[1])
    if not n:
        return False
    add(n, 'arp::token_end_marker_t{"mm"_S}')
    return True


# ---- aliases and dependencies
def ref_rule(pol, name, text, make):
    def fn(r, t):
        kinds = ('flag',) if pol == 'alias' else NAMED
        cands = [(s, n, ns) for s, ns in scopes(t) if s.k == 'mode' for n in ns if n.k in kinds and n.alias is None and n.deps is None and n.en is None]
        r.shuffle(cands)
        for s, n, ns in cands:
            x = make(r, t, s, n, ns)
            if x:
                add(n, *x)
                return True
        return False
    RULES.append((name, text, fn))


for _pol in ('alias', 'dependent'):
    ref_rule(_pol, _pol + ' on an unknown name', '', lambda r, t, s, n, ns, p=_pol: ['arp::%s(arp::long_name_t{"nosuchname"_S})' % p])
    ref_rule(_pol, _pol + ' on a name of another mode', '', lambda r, t, s, n, ns, p=_pol: (lambda c: c and ['arp::%s(arp::long_name_t{"%s"_S})' % (p, r.choice(c))])(
        sorted({x.long for s2, ns2 in scopes(t) if s2 is not s for x in ns2 if x.k == 'flag' and x.long and not any(y.long == x.long for y in s.walk())})))
    ref_rule(_pol, _pol + ' on itself', '', lambda r, t, s, n, ns, p=_pol: n.long and ['arp::%s(arp::long_name_t{"%s"_S})' % (p, n.long)])
    ref_rule(_pol, _pol + ' on one node twice', '', lambda r, t, s, n, ns, p=_pol: (lambda c: c and (lambda x: [
        'arp::%s(arp::long_name_t{"%s"_S}, arp::short_name_t{"%s"_S})' % (p, x.long, x.short)])(r.choice(c)))(
        [x for x in ns if x is not n and x.k == 'flag' and x.long and x.short and not x.alias and not x.deps]))
    ref_rule(_pol, _pol + ' on one name twice', '', lambda r, t, s, n, ns, p=_pol: (lambda c: c and (lambda x: [
        'arp::%s(arp::long_name_t{"%s"_S}, arp::long_name_t{"%s"_S})' % (p, x.long, x.long)])(r.choice(c)))(
        [x for x in ns if x is not n and x.k == 'flag' and x.long and not x.alias and not x.deps]))


def cycle(pol):
    def fn(r, t):
        c = [(a, b) for s, ns in scopes(t) if s.k == 'mode' for a in ns for b in ns if a is not b and a.k == b.k == 'flag' and a.long and b.long and not
             (a.alias or b.alias or a.deps or b.deps or a.en is not None or b.en is not None)]
        if not c:
            return False
        a, b = r.choice(c)
        chain = [a, b]
        rest = [y for x, y in c if x is b and y is not a]
        if rest and r.random() < .5:
            chain.append(r.choice(rest))
        for x, y in zip(chain, chain[1:] + chain[:1]):
            add(x, 'arp::%s(arp::long_name_t{"%s"_S})' % (pol, y.long))
        return True
    return fn


RULES.append(('cyclic alias', '', cycle('alias')))
RULES.append(('cyclic dependent', '', cycle('dependent')))


@rule('alias of another count', '')
def _(r, t):
    c = [(a, b) for s, ns in scopes(t) if s.k == 'mode' for a in ns for b in ns if a is not b and a.k == 'flag' and b.k in ('arg', 'marg') and b.long and not a.alias and not a.deps]
    if not c:
        return False
    a, b = r.choice(c)
    add(a, 'arp::alias(arp::long_name_t{"%s"_S})' % b.long)
    return True


@rule('alias of a variable count', '')
def _(r, t):
    c = [(s, b) for s, ns in scopes(t) if s.k == 'mode' for b in ns if b.k == 'marg' and b.long and b.counts()[0] != b.counts()[1]]
    if not c:
        return False
    s, b = r.choice(c)
    s.lists = None
    n = Node(k='marg', long='aliasvar', vt='std::vector<int>', perm=0, mnc=b.mnc, mxc=b.mxc, marker='zz')
    add(n, 'arp::alias(arp::long_name_t{"%s"_S})' % b.long)
    s.ch.insert(0, n)
    return True



# ---- the same rules where a look at the first or the last of several would not do
@rule('node between two positionals', '')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and not any(varlen(c) for c in m.ch))
    if not m:
        return False
    m.lists = None
    mid = r.choice([fresh_leaf(long='midpos'), fresh_leaf('arg', long='midpos', vt='int'), fresh_leaf('cflag', long='midpos', vt='int')])
    pos = [Node(k='pos', disp='xpos%d' % i, vt='std::vector<int>', perm=0, mnc=2, mxc=2) for i in range(r.choice([2, 3]))]
    i = r.randrange(1, len(pos))
    m.ch = [c for c in m.ch if c.k != 'pos'] + pos[:i] + [mid] + pos[i:]
    m.rid = None
    add(m, 'arp::router{[](auto&&...) {}}')
    return True


@rule('anonymous mode before a named one', 'Node types must all appear at the end')
def _(r, t):
    a = [m for m in t.ch if m.k == 'mode' and m.none is None]
    if not a:
        return False
    t.lists = None
    i = t.ch.index(a[0])
    new = [Node(k='flag', long='rootlast', rid=95, perm=0), Node(k='mode', none='lastmode', rid=97, perm=0, ch=[fresh_leaf(long='lm')])]
    t.ch[i + 1:i + 1] = new
    return True


@rule('two anonymous modes around a named one', '')
def _(r, t):
    if not any(m.k == 'mode' and m.none is None for m in t.ch):
        return False
    t.lists = None
    t.ch += [Node(k='mode', none='lastmode', rid=97, perm=0, ch=[fresh_leaf(long='lm')]), Node(k='mode', rid=94, perm=0, ch=[fresh_leaf(long='otherflag')])]
    return True


@rule('variable length children at both ends', 'There can only be one variable length list-like child')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and not any(varlen(c) or c.k == 'pos' for c in m.ch) and m.ch)
    if not m:
        return False
    m.lists = None
    m.ch.insert(0, Node(k='marg', long='varone', vt='std::vector<int>', perm=0))
    m.ch.append(r.choice([Node(k='marg', long='vartwo', vt='std::vector<int>', perm=0), Node(k='pos', disp='vartwo', vt='std::vector<int>', perm=0, mnc=1, mxc=5)]))
    m.rid = None
    add(m, 'arp::router{[](auto&&...) {}}')
    return True


def far_name(attr):
    def fn(r, t):
        ref = referenced(t)
        sc = []
        for s, ns in scopes(t):
            nm = [x for x in ns if x.k in NAMED]
            if s.k == 'mode' and len(nm) > 2 and getattr(nm[0], attr) and nm[-1].long not in ref and nm[-1].short not in ref:
                sc.append((nm[0], nm[-1]))
        if not sc:
            return False
        a, b = r.choice(sc)
        setattr(b, attr, getattr(a, attr))
        b.bare = False
        return True
    return fn


RULES.append(('long name of the first and last of many', '', far_name('long')))
RULES.append(('short name of the first and last of many', '', far_name('short')))


def in_and_out(attr):
    def fn(r, t):
        g = pick(r, t, ('oneof', 'agroup'))
        if not g:
            return False
        ref = referenced(t)
        ps = parents(t)
        m = ps[id(g)][0]
        ins = [c for c in g.ch if getattr(c, attr)]
        out = [c for x in m.ch if x is not g for c in ([x] if x.k in NAMED else x.ch) if c.k in NAMED and c.long not in ref and c.short not in ref]
        if not ins or not out:
            return False
        b = r.choice(out)
        setattr(b, attr, getattr(r.choice(ins), attr))
        b.bare = False
        return True
    return fn


RULES.append(('long name inside and outside a group', '', in_and_out('long')))
RULES.append(('short name inside and outside a group', '', in_and_out('short')))


def last_group_child(what):
    def fn(r, t):
        g = pick(r, t, ('oneof', 'agroup'))
        if not g:
            return False
        first = g.ch[0]
        c = Node(k='arg', long='lastchild', vt='int', perm=0) if g.k == 'oneof' else first.clone()
        if g.k == 'agroup':
            if first.k != 'arg':
                return False
            c.long, c.short, c.desc, c.alias, c.deps = 'lastchild', None, None, None, None
        if what == 'req':
            c.req = True
        else:
            add(c, 'arp::default_value<%s>{{}}' % value_type(c))
        g.ch.append(c)
        return True
    return fn


RULES.append(('required on the last child of a group', '', last_group_child('req')))
RULES.append(('default_value on the last child of a group', '', last_group_child('dflt')))


@rule('alias on the last child of the root', '')
def _(r, t):
    t.lists = None
    i = len(t.ch) - sum(m.k == 'mode' and m.none is None for m in t.ch)
    t.ch[i:i] = [Node(k='flag', long='rootone', rid=90, perm=0), Node(k='flag', long='roottwo', rid=91, alias=[('L', 'rootone')], perm=0)]
    return True


def second_ref(pol):
    def get(fn2):
        def fn(r, t, s, n, ns):
            c = [x for x in ns if x is not n and x.k == 'flag' and x.long and not x.alias and not x.deps]
            if not c:
                return None
            a = r.choice(c)
            b = fn2(r, t, s, n, a)
            refs = [a.long, b]
            if b is None:
                return None
            if r.random() < .3:
                refs.reverse()
            return ['arp::%s(%s)' % (pol, ', '.join('arp::long_name_t{"%s"_S}' % x for x in refs))]
        return fn
    ref_rule(pol, pol + ' on a known and an unknown name', '', get(lambda r, t, s, n, a: 'nosuchname'))
    ref_rule(pol, pol + ' on another and itself', '', get(lambda r, t, s, n, a: n.long))

    def cyc(r, t):
        m = pick(r, t, ('mode',), lambda m: m.rid is not None)
        if not m:
            return False
        m.lists = None
        f = lambda nm, *to: Node(k='flag', long=nm, perm=0, extra=['arp::%s(%s)' % (pol, ', '.join('arp::long_name_t{"%s"_S}' % x for x in to))] if to else None)
        new = [f('cya'), f('cyb', 'cya', 'cyc'), f('cyc', r.choice(['cyb', 'cyd']), 'cya'), f('cyd', 'cyb')]
        r.shuffle(new)
        m.ch[0:0] = new
        m.rid = None
        add(m, 'arp::router{[](auto&&...) {}}')
        return True
    RULES.append((pol + ' cycle through a second reference', '', cyc))


second_ref('alias')
second_ref('dependent')


@rule('error name twice, apart', '')
def _(r, t):
    n = pick(r, t, ('flag', 'cflag'), lambda n: n.desc is None and not n.err)
    if not n:
        return False
    n.bare = False
    add(n, 'arp::error_name_t{"Err"_S}', 'arp::description_t{"Desc"_S}', 'arp::error_name_t{"Err2"_S}')
    return True


# ---------------------------------------------------------------- near misses: these must compile
NEAR = []


def near(name):
    def f(fn):
        NEAR.append((name, '', fn))
        return fn
    return f


@near('a name repeated in another mode')
def _(r, t):
    ref = referenced(t)
    sc = [(s, ns) for s, ns in scopes(t)]
    c = [(a, b) for s, ns in sc for s2, ns2 in sc if s is not s2 and 'mode' in (s.k, s2.k) for a in ns for b in ns2
         if a.k in NAMED and b.k in NAMED and a.long and b.long not in ref and a.long not in ref and b.short not in ref and not any(x.long == a.long for x in ns2)
         and (b.sep or '!') not in a.long]
    if not c:
        return False
    a, b = r.choice(c)
    b.long = a.long
    return True


@near('a short name repeated in another mode')
def _(r, t):
    ref = referenced(t)
    sc = [(s, ns) for s, ns in scopes(t)]
    c = [(a, b) for s, ns in sc for s2, ns2 in sc if s is not s2 and 'mode' in (s.k, s2.k) for a in ns for b in ns2
         if a.k in NAMED and b.k in NAMED and a.short and b.long and b.long not in ref and a.short not in ref and b.short not in ref
         and not any(x.short == a.short for x in ns2) and b.sep != a.short]
    if not c:
        return False
    a, b = r.choice(c)
    b.short = a.short
    return True


@near('two forwarding names')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    for nm in ('--xx', '--yy'):
        m.ch.insert(0, Node(k='fwd', none=nm, mnc=2, mxc=2, perm=0))
    return True


@near('equal bounds')
def _(r, t):
    n = pick(r, t, ('arg',), lambda n: n.vt in ('int', 'long long') and not n.alias and n.dflt is None and not n.cust and not n.enreq)
    if not n:
        return False
    n.minv = n.maxv = 3
    n.rtb = False
    return True


@near('variable length child with marker before others')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    for i in range(r.choice([1, 2])):
        m.ch.insert(0, Node(k='marg', long='mk%d' % i, vt='std::vector<int>', perm=0, mnc=2, mxc=r.choice([None, 4]), marker='ZZ'))
    return True


@near('long name of two multi-byte characters')
def _(r, t):
    n = pick(r, t, NAMED, lambda n: n.long and n.long not in referenced(t))
    if not n:
        return False
    n.long = '\u6f22\u5b57'
    return True


@near('description and error name of one character')
def _(r, t):
    n = pick(r, t, NAMED, lambda n: n.desc is None)
    if not n:
        return False
    n.bare = False
    add(n, 'arp::description_t{"d"_S}', 'arp::error_name_t{"e"_S}')
    return True


@near('help and leaves between named modes')
def _(r, t):
    if not any(m.k == 'mode' for m in t.ch) or any(m.k == 'mode' and m.none is None for m in t.ch):
        return False
    t.lists = None
    t.ch.insert(r.randrange(len(t.ch) + 1), Node(k='flag', long='rootmid', rid=95, perm=0))
    return True


@near('translator on the root')
def _(r, t):
    add(t, 'arp::exception_translator<TrX>')
    return True


@near('positional of minimum count one required')
def _(r, t):
    n = pick(r, t, ('pos',), lambda n: n.counts()[0] and n.dflt is None and n.en is None)
    if not n:
        return False
    n.req = True
    return True


@near('one more mode of other name')
def _(r, t):
    if any(m.k == 'mode' and m.none is None for m in t.ch):
        t.ch.insert(r.choice([i for i, m in enumerate(t.ch) if m.k == 'mode']), Node(k='mode', none='extramode', rid=96, perm=0, ch=[fresh_leaf(long='em')]))
    else:
        t.ch.append(Node(k='mode', rid=96, perm=0, ch=[fresh_leaf(long='em')]))
    t.lists = None
    return True


@near('dependency chain')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    for i in (2, 1, 0):
        m.ch.insert(0, Node(k='flag', long='dc%d' % i, perm=0, deps=[('L', 'dc%d' % (i - 1))] if i else None))
    return True


@near('alias of two flags')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    m.ch.insert(0, Node(k='flag', long='ala', short=None, perm=0))
    m.ch.insert(0, Node(k='flag', long='alb', perm=0))
    m.ch.insert(r.randrange(3), Node(k='flag', long='alc', perm=0, alias=[('L', 'ala'), ('L', 'alb')]))
    return True


@near('display and error names repeated')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and not any(c.k == 'pos' or varlen(c) for c in m.ch))
    if not m:
        return False
    m.lists = None
    m.ch += [Node(k='pos', disp='same', vt='int', perm=0, mnc=1, mxc=1, extra=['arp::error_name_t{"Same"_S}']) for _ in range(2)]
    if not m.ch[0].err and m.ch[0].k in NAMED:
        m.ch[0].bare = False
        add(m.ch[0], 'arp::error_name_t{"Same"_S}')
    return True


@near('mode name repeated under another mode')
def _(r, t):
    t.lists = None
    i = len(t.ch) - sum(m.k == 'mode' and m.none is None for m in t.ch)
    t.ch[i:i] = [Node(k='mode', none=nm, perm=0, rid=r.choice([None, 98]), ch=[Node(k='mode', none=nm2, rid=97, perm=0, ch=[fresh_leaf(long='xx' + nm2)]) for nm2 in ch])
                 for nm, ch in (('outone', ['same', 'diff']), ('outtwo', ['same']))]
    for m in t.ch[i:i + 2]:
        if m.rid:
            m.ch.append(fresh_leaf(long='own'))
    return True


@near('mode, flag and forwarding argument of one text')
def _(r, t):
    t.lists = None
    i = len(t.ch) - sum(m.k == 'mode' and m.none is None for m in t.ch)
    t.ch.insert(i, Node(k='mode', none='text', rid=97, perm=0, ch=[fresh_leaf(long='text'), Node(k='fwd', none='--', perm=0, mnc=2, mxc=2)]))
    return True


@near('flags and lists in groups')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    kind = r.choice(['oneof', 'agroup'])
    m.ch.insert(0, Node(k=kind, perm=0, req=r.random() < .5, ch=[fresh_leaf(long='gra'), fresh_leaf(long='grb', short=None)] if kind == 'agroup' else [
        fresh_leaf(long='gra'), fresh_leaf('marg', long='grb', vt='std::vector<int>', mnc=2, mxc=2)]))
    g = m.ch[0]
    if not g.req:
        add(g, 'arp::default_value{false}')
    return True


@near('dependency on a child of a group and on an alias')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None)
    if not m:
        return False
    m.lists = None
    m.ch[0:0] = [Node(k='oneof', perm=0, req=True, ch=[fresh_leaf(long='dga'), fresh_leaf('arg', long='dgb', vt='int')]), fresh_leaf(long='dgc'),
                 Node(k='flag', long='dgd', perm=0, alias=[('L', 'dgc')]), Node(k='flag', long='dge', perm=0, deps=[('L', r.choice(['dga', 'dgb', 'dgc', 'dgd']))])]
    return True


@near('variable length list at the end')
def _(r, t):
    m = pick(r, t, ('mode',), lambda m: m.rid is not None and not any(varlen(c) for c in m.ch))
    if not m:
        return False
    m.lists = None
    if any(c.k == 'pos' for c in m.ch):
        m.ch.append(Node(k='pos', disp='lastvar', vt='std::vector<int>', perm=0, mnc=r.choice([0, 1, 2]), mxc=r.choice([None, 5])))
    else:
        m.ch.append(Node(k='marg', long='lastvar', vt='std::vector<int>', perm=0, mnc=r.choice([1, 2]), mxc=r.choice([None, 5])))
    return True


def loosen(t, name):
    """the routers of a broken tree take anything, so that they are not what the compiler refuses"""
    if 'router' not in name:
        for m in t.walk():
            if m.k == 'mode' and m.rid is not None:
                m.rid = None
                add(m, 'arp::router{[](auto&&...) {}}')


def source(t, post=None):
    s = Emit().tu(t, PRELUDE)
    return post(s) if callable(post) else s


CFGS = [dict(maxch=3, depth=1, help=.7, desc=.4, modes=.3, rootleaf=.2, lists=.05),
        dict(maxch=4, depth=2, modes=.8, anon=.3, help=.3, rootleaf=.3, lists=.05),
        dict(maxch=4, depth=1, modes=.1, help=.3, rootleaf=.1, req=.5, dflt=.3, w=dict(flag=2, cflag=2, arg=4, marg=3, pos=4, fwd=2, oneof=2, agroup=2), lists=.05),
        dict(maxch=4, depth=1, modes=.1, help=.1, rootleaf=.1, alias=.9, deps=.6, w=dict(flag=6, cflag=3, arg=4, marg=2, pos=1, fwd=.5, oneof=2, agroup=2))]


def C24(ctx):
    ctx.rule = ('generated valid trees must compile, also after a change that stays just within the rules; the same trees with one rule '
                'broken at a random position must be refused. Non-trivial: a broken tree or a near miss')
    b = Build()
    hits = {}
    msg = [0, 0]
    try:
        b.prepare()
        q = ctx.quick
        target = 420 if q else 12000
        done, i = 0, 0
        heavy = dict.fromkeys(['long name used twice', 'short name used twice', 'node repeated', 'required on one child of a group',
                               'default_value on one child of a group', 'positional before another node', 'node between two positionals', 'two variable length children',
                               'variable length child not at the end', 'cyclic alias', 'cyclic dependent'], 4)
        order = [x for x in RULES for _ in range(heavy.get(x[0], 1))]
        ctx.rng('order').shuffle(order)
        while done < target and not (i and ctx.late()):
            jobs = []
            while len(jobs) < min(160, target - done):
                # every rule in turn, on the first of some random trees it applies to
                kind, rs = ('valid', None) if i % 8 == 7 else ('near', NEAR) if i % 4 == 3 else ('rule', order)
                rng = ctx.rng('case', i)
                rl = rs and rs[(i // 8 if kind == 'near' else i - i // 4) % len(rs)]
                i += 1
                big = rng.random() < (.1 if q else .5)
                for _ in range(300):
                    t = TreeGen(rng, Cfg(**rng.choice(CFGS))).tree()
                    if len(list(t.walk())) > (12 if big else 6):
                        continue
                    if rl is None:
                        jobs.append(('valid tree', None, source(t), i))
                        break
                    c = t.clone()
                    c.bits = t.bits
                    x = rl[2](rng, c)
                    if x:
                        if kind == 'rule':
                            loosen(c, rl[0])
                        jobs.append((rl[0], rl[1] if kind == 'rule' else None, source(c, x), i))
                        break

            def one(j):
                k, (name, text, src, ti) = j
                return name, text, src, ti, b.syntax('m%d' % k, src, ['-ferror-limit=2'])
            with ThreadPoolExecutor(JOBS) as ex:
                for name, text, src, ti, diag in ex.map(one, list(enumerate(jobs))):
                    done += 1
                    ctx.case((name, src), name != 'valid tree', dict(change=name, verdict='accepted' if diag is None else 'refused'))
                    hits[name] = hits.get(name, 0) + 1
                    if text is None:
                        ctx.cls('accepted as it should be' if diag is None else 'wrongly refused')
                        if diag is not None and len(ctx.violations) < 4:
                            ctx.violation('%s: refused: %s' % (name, diag[:1500]), dict(module='checks_rules', cpp=src, accept=True))
                        continue
                    ctx.cls('refused as it should be' if diag is not None else 'wrongly accepted')
                    if diag is None:
                        if len(ctx.violations) < 4:
                            ctx.violation('a tree that breaks a rule compiles: %s' % name, dict(module='checks_rules', cpp=src, accept=False))
                        continue
                    sa = 'static assertion failed' in diag or 'static_assert failed' in diag
                    msg[0] += sa
                    msg[1] += 1
                    if os.environ.get('C24_DEV') and (not sa or text and text not in diag):
                        print('DEV', name, '|', text, '|', [l for l in diag.split('\n') if 'error' in l][:2])
    finally:
        b.close()
    ctx.extra['rules'] = dict(sorted(hits.items()))
    ctx.extra['rules_never_applied'] = sorted(n for n, _, _ in RULES + NEAR if n not in hits)
    ctx.extra['refusals_by_static_assert'] = '%d of %d' % tuple(msg)


def replay(d):
    b = Build()
    try:
        b.prepare()
        e = b.syntax('replay', d['cpp'])
        print('accepted' if e is None else 'refused: ' + e[:2000])
        return 1 if (e is None) != d['accept'] else 0
    finally:
        b.close()


CHECKS = dict(C24=C24)
TECH = dict(C24='generated trees and single-rule mutations of them given to the compiler; oracle: the rule the mutation was built to break '
                '(refused) or to keep (accepted)')
