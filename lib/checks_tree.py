"""Checks decided by the tree engine."""
from concurrent.futures import ThreadPoolExecutor
import os
import time

from core import Ctx
from engine import *
from gen import *
from model import Model, Err, Custom, L, S, N
from srv import HERE, Build, CompileError, batch, cmdF, enc_args
from tree import *

SMALL = dict(maxch=4, depth=2, modes=0.3, rootleaf=0.25, help=0.1, enable=0.08)


def cfg(**kw):
    d = dict(SMALL)
    w = kw.pop('w', None)
    d.update(kw)
    c = Cfg(**d)
    if w:
        c.w = w
    return c


def has(*kinds):
    return lambda t: any(n.k in kinds for n in t.walk())


def W(**kw):
    d = dict(flag=0, cflag=0, arg=0, marg=0, pos=0, fwd=0, oneof=0, agroup=0)
    d.update(kw)
    return {k: v for k, v in d.items() if v}


def nt(ctx, q, t):
    return q if ctx.quick else t


def simple(ctx, profiles, ncases, p_intent, p_mut, focus, rule, mutops=range(15), **kw):
    ctx.rule = rule
    t = TreeCheck(ctx, **kw)
    t.mutops = mutops
    try:
        t.campaign([(tag, c, nt(ctx, q, q * 12)) for tag, c, q in profiles],
                   nt(ctx, ncases, ncases * 4), p_intent, p_mut, focus)
    finally:
        t.close()
    ctx.assumptions += ['clang++ -O0, libstdc++ with assertions', 'alphabet of names, separators, markers and '
                        'values as in lib/gen.py', 'trees of at most ~15 nodes']


def C01(ctx):
    simple(ctx, [('mix', cfg(modes=0.4, maxch=4), 8),
                 ('flat', cfg(modes=0, maxch=6, rootleaf=0, alias=.2, deps=.15), 6),
                 ('val', cfg(modes=0, maxch=5, rootleaf=0, alias=0, deps=0, w=W(arg=5, marg=3, pos=3, oneof=1)), 5),
                 ('grp', cfg(modes=0, maxch=4, rootleaf=0, w=W(flag=2, cflag=2, arg=2, oneof=2, agroup=2, pos=1)), 5)],
           420, 0.85, 0.15,
           lambda kind, cov, exp, argv: exp.startswith('OK|') and len(argv) >= 2,
           'command lines built from an intended assignment of values to nodes (plus mutations that stay '
           'acceptable), router call compared with intent and reference model; non-trivial: accepted, calls a '
           'router and has at least two tokens')


def C02(ctx):
    simple(ctx, [('mix', cfg(modes=0.4), 9),
                 ('flat', cfg(modes=0, maxch=6, rootleaf=0), 6),
                 ('req', cfg(modes=.2, req=.6, bounds=.6, deps=.5, alias=.5, rootleaf=0), 5),
                 ('cnt', cfg(modes=0, rootleaf=0, w=W(marg=3, pos=3, fwd=1, arg=1, oneof=1)), 4)],
           500, 0.12, 0.66,
           lambda kind, cov, exp, argv: exp[:2] in ('EX', 'UE') and not ({'E:no_arguments'} & cov) and
           (len(argv) >= 2 or 'E:suggest' not in cov),
           'mutations of acceptable lines and vocabulary soups; exact error text and absence of any router call '
           'compared with the reference model; non-trivial: rejected, other than by the empty line or a single '
           'unknown token')


def C04(ctx):
    ctx_rule = ('value texts: canonical, extreme, overflowing by one, padded, sign/zero variants, truncated, '
                'concatenated and random texts for every value type, delivered through arg, multi_arg, '
                'positional_arg, separators and custom parsers; non-trivial: a value was converted or a '
                'conversion was rejected')
    ctx.rule = ctx_rule
    c = TreeCheck(ctx)
    types = ['int', 'long long', 'short', 'unsigned short', 'unsigned', 'std::uint64_t', 'std::uint8_t',
             'std::int8_t', 'double', 'bool', 'std::string', 'std::string_view', 'std::filesystem::path',
             'std::optional<int>', 'std::optional<std::uint64_t>', 'std::optional<bool>',
             'std::optional<double>', 'std::optional<std::uint8_t>', 'Pt', 'std::optional<Pt>']
    vecs = ['std::vector<int>', 'std::vector<std::string>', 'std::vector<std::string_view>',
            'std::vector<double>', 'std::vector<bool>', 'std::list<std::string>', 'std::deque<long long>',
            'std::vector<unsigned>', 'std::vector<std::uint8_t>', 'std::list<std::int8_t>',
            'std::vector<std::uint64_t>', 'std::deque<unsigned short>', 'std::vector<short>', 'std::vector<Pt>', 'std::list<Pt>']
    cust = [('int', 'rt::cp_len'), ('std::string', 'rt::cp_brk'), ('Pt', 'rt::cp_pt'), ('Col', 'rt::cp_col')]
    trees = {}
    longs = [x for x in LONGS]
    for rnd in range(1 if ctx.quick else 4):
        r = ctx.rng('types', rnd)
        pool = [('arg', t, None) for t in types] + [('arg', t, k) for t, k in cust] + \
               [('marg', t, None) for t in vecs] + [('pos1', t, None) for t in types] + [('pos1', t, k) for t, k in cust] + [('posn', t, None) for t in vecs]
        r.shuffle(pool)
        named = [p for p in pool if p[0] in ('arg', 'marg')]
        poss = [p for p in pool if p[0][:3] == 'pos']
        i = 0
        while named or poss:
            root = Node(k='root', perm=r.randrange(64))
            m = Node(k='mode', rid=1)
            root.ch = [m]
            used = r.sample(longs, 3)
            for nm in used[:2]:
                if named:
                    k, vt, cu = named.pop()
                    n = Node(k=k, long=nm, vt=vt, cust=cu, bare=r.random() < .5, perm=r.randrange(64))
                    if k == 'marg':
                        n.mnc = n.mxc = 2
                    elif r.random() < .5:
                        n.sep = r.choice([s for s in SEPS if s not in nm])
                    m.ch.append(n)
            if poss:
                k, vt, cu = poss.pop()
                n = Node(k='pos', disp='P', vt=vt, cust=cu, bare=True)
                if k == 'pos1':
                    n.mnc = n.mxc = 1
                m.ch.append(n)
            root.bits = 0
            trees['ty%d_%d' % (rnd, i)] = root
            i += 1
    try:
        todo = list(trees.items())
        for i in range(0, len(todo), 32):
            if ctx.late() and i:
                break
            part = dict(todo[i:i + 32])
            for name, exe in c.compile(part).items():
                t = part[name]
                r = ctx.rng('c', name)
                cases = []
                m = t.ch[0]
                for _ in range(nt(ctx, 500, 4000)):
                    n = r.choice(m.ch)
                    vt = value_type(n)
                    e = elem(vt) if is_vec(vt) else vt
                    if n.k == 'pos':
                        cnt = 1 if not is_vec(vt) else r.choice([1, 2, 3])
                        argv = [value_text(r, e, n.cust) for _ in range(cnt)]
                    elif n.k == 'marg':
                        argv = ['--' + n.long] + [value_text(r, e, n.cust) for _ in range(2)]
                    elif n.sep:
                        argv = ['--' + n.long + n.sep + value_text(r, e, n.cust)]
                    else:
                        argv = ['--' + n.long, value_text(r, e, n.cust)]
                    cases.append(('value', 0, argv, None))
                c.judge(name, t, exe, cases,
                        lambda kind, cov, exp, argv: exp.startswith('OK|') or
                        bool(cov & {'E:failed_to_parse', 'E:custom'}))
                os.unlink(exe)
        # the same conversions inside random trees
        c.campaign([('rnd', cfg(modes=0, rootleaf=0.5, cust=.3, w=W(arg=5, marg=3, pos=3)), nt(ctx, 3, 40)),
                    ('usr', cfg(modes=0, rootleaf=0.5, cust=.3, argt=['Pt', 'std::optional<Pt>', 'int'], w=W(arg=5, pos=1)), nt(ctx, 2, 20))],
                   nt(ctx, 300, 1000), 0.5, 0.4,
                   lambda kind, cov, exp, argv: exp.startswith('OK|') and len(argv) > 1 or
                   bool(cov & {'E:failed_to_parse', 'E:custom'}))
    finally:
        c.close()


def value_text(r, e, cust=None):
    """texts around the border between valid and invalid spellings of a value of type e"""
    if e.startswith('std::optional<'):
        e = elem(e)
    k = r.random()
    if cust or e == 'Pt':
        if e == 'Pt' or cust == 'rt::cp_pt':
            return r.choice(['1;2', '-3;+4', '1;', ';', '1;2;3', 'x', '12;-9', '1;2 ', '%d;%d' % (r.randint(-999, 999), r.randint(-999, 999))])
        if cust == 'rt::cp_col':
            return r.choice(['red', 'green', 'blue', 'Red', 'blu', 'bluee', '', '0'])
        return r.choice(WORDS)
    if e in INTS:
        lo, hi = INTS[e]
        if k < 0.15:
            v = r.choice([lo, hi, lo + 1, hi - 1, 0, 1, -1])
        elif k < 0.4:
            v = r.choice([lo - 1, hi + 1, lo - r.randint(1, 300), hi + r.randint(1, 300), hi * 2 + 2, hi * 10, lo * 10 - 1,
                          2**32, 2**64, -2**64, -hi, 2**32 + 5, 2**16 + 3, 256, -129, 2**63])
        elif k < 0.8:
            v = gen_value(r, e)
        else:
            return r.choice(['', '+', '-', '1a', 'a1', ' 1', '1 ', '0x1', '1.0', '1e1', '--1', '+-1', '1,0', '٣', 'true',
                             '1\n', '\t2', '１', '1_000', "1'000", '00', '-00', '+0', '-0', '0', '00012', 'one',
                             str(gen_value(r, e)) + 'x', 'x' + str(gen_value(r, e))])
        s = str(v)
        if r.random() < .15 and v >= 0:
            s = '+' + s
        if r.random() < .1:
            s = s.replace('-', '-0') if v < 0 else ('+0' + s[1:] if s[0] == '+' else '0' + s)
        return s
    if e == 'double':
        if k < 0.6:
            v = r.choice([gen_value(r, 'double'), r.uniform(-1, 1) * 10 ** r.randint(-300, 300),
                          5e-324, 1.7976931348623157e308, 0.1, 1 / 3])
            return r.choice([repr(v), '%.17g' % v, '%.17e' % v])
        return r.choice(['1e5', '1E+5', '1.e2', '.5', '5.', '', '.', '-', '1e', '1e+', '1.2.3', '1,5', '0x1p3', ' 1', '1 ', '1f',
                         '1e309', '-1e309', 'abc', '+1.5', '--1', '1e1.5', '+.5e-1'])
    if e == 'bool':
        if k < .6:
            return r.choice(TRUE + FALSE)
        return r.choice(['True', 'YES', 'Y', 'On', 'ON', '2', '', 't', 'f', 'enabled', 'disabled', 'tru', 'truee', ' yes',
                         'no ', '00', '01', '-1', 'oui', 'enable', 'disable', 'o', 'of'])
    if k < .5:
        return r.choice(WORDS)
    return ''.join(r.choice('ab-=:+ 0é日\U0001F600\t"\\\x7f') for _ in range(r.randint(0, 12)))


def C05(ctx):
    simple(ctx, [('marg', cfg(modes=0, rootleaf=0, maxch=4, alias=.1, deps=0, w=W(marg=5, flag=1, arg=1)), 6),
                 ('pos', cfg(modes=0, rootleaf=0, maxch=4, alias=0, deps=0, w=W(pos=6, flag=1, arg=1)), 8),
                 ('fwd', cfg(modes=0.2, rootleaf=0, maxch=4, alias=0, deps=0, w=W(fwd=6, flag=2, arg=1, marg=1)), 5),
                 ('mix', cfg(modes=0.2, rootleaf=0, maxch=4, w=W(fwd=1, pos=4, marg=4, cflag=1, oneof=1)), 5)],
           500, 0.5, 0.4,
           lambda kind, cov, exp, argv: bool(cov & {
               'marg:min', 'marg:max', 'marg:mid', 'pos:min', 'pos:max', 'pos:mid', 'fwd:min', 'fwd:max', 'fwd:mid',
               'E:min_count', 'E:max_count'}),
           'lines around the count bounds (below, at, between, above; with and without the end marker; marker '
           'repeated, misplaced, first) compared with the reference model; non-trivial: a multi-value node took '
           'tokens or was rejected for its count')


def C06(ctx):
    simple(ctx, [('arg', cfg(modes=0, rootleaf=0.3, maxch=4, bounds=.9, deps=0, w=W(arg=5, pos=1)), 7),
                 ('cnt', cfg(modes=0.2, rootleaf=0, maxch=3, bounds=.9, deps=0, alias=.4, w=W(cflag=4, arg=1)), 6),
                 ('grp', cfg(modes=0, rootleaf=0, maxch=3, bounds=.9, group_bounds=1, deps=0,
                             w=W(agroup=4, oneof=1, cflag=1)), 7),
                 ('def', cfg(modes=0, rootleaf=0, maxch=4, bounds=.9, dflt=.5, enable=.3, offb=.4, w=W(arg=4, cflag=2)), 5),
                 ('wide', cfg(modes=0, rootleaf=0.2, maxch=5, bounds=1, dflt=.2, offb=.3, req=.1, deps=0, alias=0, group_bounds=.7,
                              argt=['long long', 'std::uint64_t', 'double', 'unsigned', 'std::int8_t'],
                              w=W(arg=6, pos=1, agroup=1)), 6)],
           450, 0.45, 0.45,
           lambda kind, cov, exp, argv: bool(cov & {'bound-ok', 'E:min_value', 'E:max_value'}),
           'values at, just inside and just outside the bounds, repeated counting flags, groups, aliases and '
           'defaults compared with the reference model; non-trivial: a bound was evaluated',
           mutops=[13] * 8 + [14] * 3 + list(range(15)))


def C07(ctx):
    simple(ctx, [('al', cfg(modes=0.1, rootleaf=0, alias=1.0, deps=0, maxch=4, req=.05,
                            accept=lambda t: any(n.alias for n in t.walk())), 10),
                 ('ch', cfg(modes=0, rootleaf=0, alias=1.0, alias_chain=1, deps=0, maxch=4,
                            accept=lambda t: sum(1 for n in t.walk() if n.alias) > 1), 6),
                 ('gr', cfg(modes=0, rootleaf=0, alias=1.0, alias_in_group=1, deps=.3, maxch=4,
                            w=W(flag=1, cflag=2, arg=2, oneof=2, agroup=2),
                            accept=lambda t: any(n.alias for n in t.walk())), 8)],
           450, 0.6, 0.3,
           lambda kind, cov, exp, argv: bool(cov & {'alias1', 'alias2', 'alias-chain', 'E:too_few_alias'}),
           'lines using aliases (alone, twice, together with their targets, chained, into groups) compared with '
           'intent and reference model; non-trivial: an alias was expanded or refused')
    alias_rewrite(ctx)


def alias_rewrite(ctx):
    """metamorphic: an alias line equals the line giving each target the tokens directly"""
    c = TreeCheck(ctx)
    try:
        prof = cfg(modes=0.1, rootleaf=0, alias=1.0, deps=0, maxch=4, req=0, enable=0,
                   accept=lambda t: any(n.alias for n in t.walk()))
        trees = c.trees(prof, nt(ctx, 4, 40), 'rw')
        for name, exe in c.compile(trees).items():
            t = trees[name]
            r = ctx.rng('rw', name)
            al = [(n, ps) for n, ps in walk_parents(t) if n.alias]
            lines = []
            for _ in range(nt(ctx, 120, 600)):
                n, ps = r.choice(al)
                mode = [p for p in ps if p.k in ('mode', 'root')][0]
                path = [p.none for p in reversed(ps) if p.k == 'mode' and p.none]

                def targets(refs):
                    o = []
                    for x in mode.walk():
                        if any((k == 'L' and x.long == nm) or (k == 'S' and x.short == nm) for k, nm in refs):
                            o += targets(x.alias) if x.alias else [x]
                    return o
                ts = targets(n.alias)
                cnt = n.counts()[0]
                toks = [r.choice(['1', '0', '7', 'true', 'no', 'abc', '2.5', '70000', '-3']) for _ in range(cnt)]

                def spell(x):
                    lab = '--' + x.long if x.long else '-' + x.short
                    if x.sep:
                        return [lab + x.sep + toks[0]]
                    return [lab] + toks
                a = path + spell(n)
                b = list(path)
                for x in ts:
                    b += spell(x)
                lines.append((a, b, n))
            got = batch(exe, [cmdF(0, a) for a, _, _ in lines] + [cmdF(0, b) for _, b, _ in lines])
            for i, (a, b, n) in enumerate(lines):
                ga, gb = got[i], got[len(lines) + i]
                ctx.case((name, a, b), True, None)
                ctx.cls('rewrite:' + ga[:2])
                if ga != gb:
                    ctx.cls('mismatches')
                    if len(ctx.violations) < 3:
                        g2 = batch(exe, [cmdF(0, a), cmdF(0, b)])
                        if g2[0] != g2[1]:
                            ctx.violation('alias line %r gives %s but %r gives %s' % (a, dec(ga), b, dec(gb)),
                                          dict(kind='pair', tree=tree_repr(t), cpp=c.emit(t), mask=0, argv=a, argv2=b,
                                               got=dec(ga), got2=dec(gb), flags=c.flags, prefixes=['--', '-']))
                    break
    finally:
        c.close()


def C08(ctx):
    simple(ctx, [('one', cfg(modes=0.1, rootleaf=0, maxch=3, alias=.2, w=W(oneof=5, flag=1, arg=1)), 9),
                 ('agr', cfg(modes=0.1, rootleaf=0, maxch=3, alias=.2, w=W(agroup=5, flag=1, arg=1)), 9),
                 ('mix', cfg(modes=0, rootleaf=0, maxch=4, alias=.3, alias_in_group=1, w=W(agroup=3, oneof=3, pos=1)), 6)],
           450, 0.5, 0.35,
           lambda kind, cov, exp, argv: bool(cov & {'oneof', 'agroup', 'E:one_of'}),
           'lines using no, one, several and repeated group alternatives in every order compared with intent and '
           'reference model; non-trivial: a group alternative was used or a conflict was rejected')


def C09(ctx):
    simple(ctx, [('dep', cfg(modes=0.1, rootleaf=0, maxch=5, deps=.8, alias=.3, req=.05, enable=.05,
                             w=W(flag=4, cflag=2, arg=4, marg=1),
                             accept=lambda t: any(n.deps for n in t.walk())), 12),
                 ('grp', cfg(modes=0, rootleaf=0, maxch=4, deps=.8, alias=.3, req=.05, enable=.05,
                             w=W(flag=2, arg=2, oneof=3, agroup=2, cflag=1),
                             accept=lambda t: any(n.deps for n in t.walk())), 10)],
           500, 0.5, 0.4,
           lambda kind, cov, exp, argv: bool(cov & {'dep-ok', 'E:dependent'}),
           'permutations and sub-sequences of lines with dependent nodes (dependencies before, after, missing, '
           'through aliases) compared with the reference model; non-trivial: a dependency was checked')
    alias_dependent_probe(ctx)


PROBE_DEP = '''
static auto make(unsigned) {
  return ar::root(arp::validation::default_validator, ar::mode(
    arp::router{[](int a, int b){ rt::call(1, a, b); }},
    ar::arg<int>("aa"_S),
    ar::arg<int>("bb"_S, arp::dependent(arp::long_name_t{"aa"_S})),
    ar::arg<int>("cc"_S, arp::alias(arp::long_name_t{"bb"_S}))));
}
IRoot* make_root(unsigned en) { return new Impl<decltype(make(en))>{make(en)}; }
'''
PROBE_DIS = '''
static auto make(unsigned en) {
  return ar::root(arp::validation::default_validator, ar::mode(
    arp::router{[](int a, int b){ rt::call(1, a, b); }},
    ar::arg<int>("aa"_S, arp::runtime_enable{bool(en & 1)}),
    ar::arg<int>("bb"_S),
    ar::arg<int>("cc"_S, arp::alias(arp::long_name_t{"aa"_S}))));
}
IRoot* make_root(unsigned en) { return new Impl<decltype(make(en))>{make(en)}; }
'''


def probe(ctx, key, src, cmds):
    """cmds: [(cmd, right response, known wrong response or None)]"""
    b = Build()
    try:
        b.prepare()
        exe = b.compile_tu('probe', src)
        got = batch(exe, [c for c, _, _ in cmds])
        for (cmd, right, wrong), g in zip(cmds, got):
            ctx.case((key, cmd), True, None)
            if dec(g) == right:
                continue
            if wrong is not None and dec(g) == wrong and ctx.known_finding(key):
                continue
            ctx.violation('%s: %s gives %s, expected %s' % (key, cmd, dec(g), right),
                          dict(kind='probe', cpp=src, cmd=cmd, got=dec(g), expected=right))
    except CompileError as e:
        ctx.violation('probe does not compile', dict(kind='compile', cpp=src, diagnostics=e.text[:4000]))
    finally:
        b.close()


DEPMSG = 'EX Dependent argument missing (needs to be before the requiring token on the command line): --aa'


def alias_dependent_probe(ctx):
    probe(ctx, 'alias-to-dependent', PROBE_DEP, [
        (cmdF(0, ['--bb', '5']), DEPMSG, None),
        (cmdF(0, ['--aa', '1', '--cc', '5']), 'OK|r1(1 5)', None),
        (cmdF(0, ['--cc', '5']), DEPMSG, 'OK|r1(0 5)')])


def alias_disabled_probe(ctx):
    probe(ctx, 'alias-to-disabled', PROBE_DIS, [
        (cmdF(1, ['--cc', '5']), 'OK|r1(5 0)', None),
        (cmdF(0, ['--bb', '5']), 'OK|r1(0 5)', None),
        (cmdF(0, ['--cc', '5']), 'EX Unknown argument: --cc. Did you mean --bb?', 'OK|r1(5 0)')])


def C11(ctx):
    simple(ctx, [('two', cfg(modes=1.0, depth=1, maxch=2, rootleaf=.3, anon=.6, help=.1, alias=.1, deps=.1), 9),
                 ('deep', cfg(modes=1.0, depth=3, maxch=2, rootleaf=.1, anon=.5, help=0, alias=.1, deps=.1,
                              w=W(flag=3, arg=2, pos=2, oneof=1)), 10),
                 ('en', cfg(modes=1.0, depth=2, maxch=2, rootleaf=.3, anon=.7, enable=.5, alias=0, deps=0), 6)],
           450, 0.55, 0.3,
           lambda kind, cov, exp, argv: bool(cov & {'mode', 'nested-mode'}) and len(argv) > 1 or
           'E:mode_requires' in cov,
           'lines addressed to every mode path, with other modes\' nodes mixed in, incomplete paths and disabled '
           'modes, compared with the reference model; non-trivial: a named mode was entered with further tokens, or '
           'a mode demanded arguments')


# ---------------------------------------------------------------- C03
def C03(ctx):
    ctx.rule = ('acceptable lines rewritten by re-ordering independent named arguments, swapping long and short '
                'names, collapsing and expanding short forms and using the other parse() overloads; outcome of every '
                'variant equal to the original\'s; non-trivial: the variant\'s tokens differ from the original\'s or '
                'another overload is used')
    c = TreeCheck(ctx, variants=True)
    profs = [('perm', cfg(modes=.15, rootleaf=0, maxch=6, short=.8, alias=.2, deps=.1,
                          w=W(flag=5, cflag=3, arg=4, marg=1, oneof=1, agroup=1, pos=1)), nt(ctx, 14, 150)),
             ('coll', cfg(modes=.1, rootleaf=0, maxch=6, short=1, alias=.2, deps=.1,
                          w=W(flag=6, cflag=4, arg=2)), nt(ctx, 8, 80))]
    try:
        for tag, p, cnt in profs:
            trees = c.trees(p, cnt, tag)
            if ctx.late() and ctx.evals:
                break
            for name, exe in c.compile(trees).items():
                t = trees[name]
                r = ctx.rng('v', name)
                groups = []
                for _ in range(nt(ctx, 60, 250)):
                    mask = (1 << t.bits) - 1
                    it = Intent(t, r, mask)
                    try:
                        base, exp, _ = it.line()
                    except Unusable:
                        continue
                    vs = [(0, base)]
                    for _v in range(5):
                        try:
                            vs.append((0, it.rerender()))
                        except Unusable:
                            pass
                    for how in (1, 2, 5):
                        vs.append((how, base))
                    groups.append((mask, exp, vs))
                cmds = [cmdF(m, a, h) for m, _, vs in groups for h, a in vs]
                got = batch(exe, cmds)
                i = 0
                for mask, exp, vs in groups:
                    gs = got[i:i + len(vs)]
                    i += len(vs)
                    for (how, a), g in zip(vs, gs):
                        ntv = a != vs[0][1] or how != 0
                        ctx.case((name, mask, a, how, vs[0][1]), ntv,
                                 dict(tree=name, original=vs[0][1], variant=a, overload=how, outcome=dec(g)) if ntv else None)
                        ctx.cls('overload%d' % how)
                        if g != gs[0]:
                            ctx.cls('mismatches')
                            if len(ctx.violations) < 3:
                                g1, g2 = batch(exe, [cmdF(mask, vs[0][1]), cmdF(mask, a, how)])
                                if g1 == g2:
                                    continue
                                report_pair(ctx, c, t, exe, mask, vs[0][1], a, how, g1, g2)
                os.unlink(exe)
    finally:
        c.close()


def report_pair(ctx, c, t, exe, mask, a, b, how, ga, gb):
    ctx.violation('equivalent lines disagree: %r -> %s but %r (overload %d) -> %s' % (a, dec(ga), b, how, dec(gb)),
                  dict(kind='pair', tree=tree_repr(t), cpp=c.emit(t), mask=mask, argv=a, argv2=b, how2=how,
                       got=dec(ga), got2=dec(gb), flags=c.flags, prefixes=['--', '-']))


# ---------------------------------------------------------------- C10
def without_disabled(root, mask):
    """the same tree without the nodes disabled under mask, or None if that tree is not well formed"""
    t = root.clone()
    removed = []

    def dis(n):
        return n.en is not None and not (mask >> n.en) & 1
    for n in list(t.walk()):
        keep = []
        for c in n.ch:
            if dis(c):
                if n.k in ('oneof', 'agroup'):
                    return None, None
                removed.append(c)
            else:
                keep.append(c)
        n.ch = keep
        n.lists = None
    left = list(t.walk())
    have = set()
    for n in left:
        if n.long:
            have.add(('L', n.long))
        if n.short:
            have.add(('S', n.short))
        if n.k in ('mode', 'root') and not n.ch:
            return None, None
    for n in left:
        for k in (n.alias or []) + (n.deps or []):
            if k not in have:
                return None, None
    for n in left:
        n.en = None
        if n.enreq:
            n.enreq = False
            n.req = True
    for n in left:
        if n.k == 'mode' and n.rid is None and not all(c.k == 'mode' for c in n.ch):
            return None, None
        # several anonymous modes cannot appear; a variable-length list must stay last
    t.bits = 0
    return t, removed


def C10(ctx):
    ctx.rule = ('(a) trees with run-time enables under random masks against the reference model; (b) differential: '
                'the tree with nodes disabled against the tree compiled without them - router values (with the '
                'fallback value in the disabled node\'s place), errors, suggestions and help; non-trivial: at least '
                'one node of the tree disabled and the line reaches a decision involving it or its mode')
    c = TreeCheck(ctx, help_=True)
    try:
        c.campaign([('en', cfg(modes=.4, enable=.5, rootleaf=.4, alias=.2, deps=.2, maxch=4), nt(ctx, 8, 90)),
                    ('rq', cfg(modes=.1, enable=.5, rootleaf=.1, req=0, dflt=.0, alias=0, deps=0, maxch=4,
                               w=W(arg=3, marg=1, pos=2, flag=1)), nt(ctx, 6, 60))],
                   nt(ctx, 400, 1500), .5, .3,
                   lambda kind, cov, exp, argv: bool(cov & {'disabled', 'enreq-default'}))
        pairs = {}
        i = 0
        want = nt(ctx, 6, 60)
        while len(pairs) < want and i < want * 60:
            r = ctx.rng('pair', i)
            i += 1
            t = TreeGen(r, cfg(modes=.4, enable=.45, rootleaf=.5, alias=.1, deps=.1, maxch=4, help=.6, desc=.3)).tree()
            if not t.bits:
                continue
            mask = r.randrange((1 << t.bits) - 1)
            u, removed = without_disabled(t, mask)
            if u is None or not removed:
                continue
            pairs['p%d' % len(pairs)] = (t, u, mask)
        srcs = {}
        for k, (t, u, mask) in pairs.items():
            srcs[k + 'a'] = t
            srcs[k + 'b'] = u
        exes = {} if ctx.late() else c.compile(srcs)
        for k, (t, u, mask) in pairs.items():
            if k + 'a' not in exes or k + 'b' not in exes:
                continue
            r = ctx.rng('pc', k)
            cases = c.cases(u, r, nt(ctx, 250, 900), .4, .35)
            voc, shorts = vocab(t)
            cases += [('soup', 0, soup(r, voc, shorts), None) for _ in range(60)]
            ga = batch(exes[k + 'a'], ['H %d' % mask] + [cmdF(mask, a) for _, _, a, _ in cases])
            gb = batch(exes[k + 'b'], ['H 0'] + [cmdF(0, a) for _, _, a, _ in cases])
            fb = fallback_map(t, u, mask)
            for j, (x, y) in enumerate(zip(ga, gb)):
                a = ['<help>'] if j == 0 else cases[j - 1][2]
                ctx.case((k, mask, a), True, dict(tree=k, mask=mask, argv=a, outcome=dec(y)[:200]))
                ctx.cls('differential:' + x[:2])
                xx, yy = norm_help(x), insert_fallback(norm_help(y), fb)
                if xx != yy and not surplus(xx, yy, a):
                    ctx.cls('mismatches')
                    if len(ctx.violations) < 3:
                        ctx.violation('disabled node observable: argv=%r: with disabled nodes %s, without them %s' % (
                            a, dec(xx)[:600], dec(yy)[:600]),
                            dict(kind='differential', tree=tree_repr(t), cpp=c.emit(t), cpp_without=c.emit(u),
                                 mask=mask, argv=a, got=dec(xx), expected=dec(yy), flags=c.flags))
                    break
    finally:
        c.close()
    alias_disabled_probe(ctx)


def surplus(x, y, argv):
    """both reject the same surplus token.  The library words this differently once every child of the mode has been
    matched, which a disabled child never is"""
    dx, dy = dec(x), dec(y)
    for t in argv:
        if dx.startswith('EX Unknown argument: ' + t + '. Did you mean ') and (
                dy == 'EX Unhandled arguments: ' + t or dy.startswith('EX Unhandled arguments: ' + t + ', ')):
            return True
    return False


def norm_help(x):
    """help text compared up to the width of the gap before the descriptions"""
    def n(b):
        return re.sub(rb'  +', b'  ', b)
    if x.startswith('HE '):
        return 'HE ' + n(bytes.fromhex(x[3:])).decode('utf-8', 'replace')

    def sub(m):
        try:
            b = bytes.fromhex(m.group(1)[1:])
        except ValueError:
            return m.group(0)
        return '(s' + n(b).hex() + ')'
    return re.sub(r'\((s[0-9a-f]*)\)$', sub, x)


def fallback_map(t, u, mask):
    """{router id: [None for a kept argument, text for a disabled node's]}"""
    out = {}
    for n in t.walk():
        if n.k != 'mode' or n.rid is None:
            continue
        row = []
        for c in router_children(n):
            if c.en is not None and not (mask >> c.en) & 1:
                vt = value_type(c)
                if c.k == 'flag':
                    v = False
                elif c.enreq:
                    v = c.enreq_d[0] if c.enreq_d is not None else default_init(vt)
                elif c.dflt is not None:
                    v = c.dflt[0]
                else:
                    v = default_init(vt)
                row.append(ser(vt, v))
            else:
                row.append(None)
        out[n.rid] = row
    return out


def insert_fallback(y, fb):
    m = re.match(r'OK\|r(\d+)\((.*)\)$', y)
    if not m or int(m.group(1)) not in fb:
        return y
    got = m.group(2).split(' ') if m.group(2) else []
    row = fb[int(m.group(1))]
    if sum(1 for x in row if x is None) != len(got):
        return y
    it = iter(got)
    return 'OK|r%s(%s)' % (m.group(1), ' '.join(next(it) if x is None else x for x in row))


# ---------------------------------------------------------------- C12
def C12(ctx):
    ctx.rule = ('histories of parse calls (accepted and rejected), help generations and copies on two root objects of the '
                'same type that differ in their run-time values (defaults, bounds, enabled nodes, router captures); '
                'every outcome compared with a fresh root\'s and with the model; non-trivial: at least the second '
                'operation of a history')
    c = TreeCheck(ctx, variants=True, help_=True)
    profs = [('h', cfg(modes=.4, maxch=4, rootleaf=.4, help=.3, enable=.1, w=W(flag=3, cflag=3, arg=3, marg=2, pos=2, fwd=1, oneof=3, agroup=2)),
              nt(ctx, 12, 120)),
             ('g', cfg(modes=0, maxch=3, rootleaf=0, dflt=.5, bounds=.4, w=W(oneof=4, agroup=3, cflag=2)), nt(ctx, 6, 60))]
    try:
        for tag, p, cnt in profs:
            if ctx.late() and ctx.evals:
                break
            trees = c.trees(p, cnt, tag)
            twins = {k: twin(t, ctx.rng('twin', k), gen_value) for k, t in trees.items()}
            for name, exe in c.compile(trees).items():
                t = trees[name]
                both = (t, twins[name])
                r = ctx.rng('hist', name)
                hist = []
                for _ in range(nt(ctx, 25, 120)):
                    # the two roots: two of the same tree, or one of the twin (or both)
                    marks = []
                    for s in range(2):
                        mask = (1 << t.bits) - 1 if r.random() < .7 else (r.randrange(1 << t.bits) if t.bits else 0)
                        marks.append(mask | (TWIN if r.random() < (.15, .8)[s] else 0))
                    pool = c.cases(t, r, 6, .6, .3) + c.cases(both[1], r, 4, .6, .3)
                    ops = []
                    for _k in range(r.randint(4, 14)):
                        x = r.random()
                        slot = 0 if r.random() < .6 else 1
                        if x < .1:
                            ops.append((slot, 'h', None, 0))
                        elif x < .2:
                            ops.append((slot, 'C', None, 0))
                        elif pool:
                            ops.append((slot, 'P', r.choice(pool)[2],
                                        r.choice([0, 0, 0, 1, 2, 3, 4, 5]) + 64 * (r.randint(1, 5) if r.random() < .3 else 0)))
                    hist.append((marks, ops))
                cmds = []
                fresh = []
                where = []
                for marks, ops in hist:
                    w, cm = history_cmds(marks, ops)
                    where.append([len(cmds) + i for i in w])
                    cmds += cm
                    fresh += [fresh_cmd(marks, op) for op in ops]
                got = batch(exe, cmds, timeout=200)
                ref = batch(exe, fresh, timeout=200)
                j = 0
                for (marks, ops), w in zip(hist, where):
                    for q, (slot, o, a, how) in enumerate(ops):
                        g, f = got[w[q]], thrown(ref[j], how)
                        j += 1
                        e = thrown(c.expect(both[marks[slot] // TWIN], marks[slot] % TWIN, a), how) if o == 'P' else None
                        ctx.case((name, tuple(marks), tuple((x[0], x[2] and tuple(x[2])) for x in ops[:q + 1])), q > 0,
                                 dict(tree=name, history=[(x[0], x[2] or x[1]) for x in ops[:q + 1]], outcome=dec(g)[:200]) if q > 2 else None)
                        ctx.cls('op:' + o + ':' + g[:2])
                        if how // 64 and g[:2] == 'BM':
                            ctx.cls('router threw %d' % (how // 64))
                        if marks[0] // TWIN != marks[1] // TWIN and len({x[0] for x in ops[:q + 1]}) > 1:
                            ctx.cls('after both of two different roots were used')
                        if g != f or (e is not None and not same(g, e)):
                            ctx.cls('mismatches')
                            if len(ctx.violations) < 3:
                                shrink_history(ctx, c, both, exe, marks, ops[:q + 1])
                os.unlink(exe)
    finally:
        c.close()


TWIN = 1 << 31


def thrown(outcome, how):
    """how // 64: what the routers throw; the caller of parse() receives exactly that"""
    return 'BM %d%s' % (how // 64, outcome[2:]) if how // 64 and outcome.startswith('OK|') else outcome


def history_cmds(marks, ops):
    """-> (index of the command of each operation, commands)"""
    cmds = []
    for s, m in enumerate(marks):
        cmds += ['S %d' % s, 'N %d' % m]
    w = []
    for slot, o, a, how in ops:
        cmds.append('S %d' % slot)
        w.append(len(cmds))
        cmds.append(o if a is None else 'P %d %s' % (how, enc_args(a)))
    return w, cmds


def fresh_cmd(marks, op):
    slot, o, a, how = op
    return 'H %d' % marks[slot] if o == 'h' else 'N %d' % marks[slot] if o == 'C' else cmdF(marks[slot], a, 0)


def shrink_history(ctx, c, both, exe, marks, ops):
    def run(os_):
        g = batch(exe, history_cmds(marks, os_)[1])[-1]
        f = thrown(batch(exe, [fresh_cmd(marks, os_[-1])])[0], os_[-1][3])
        if g == f and os_[-1][1] == 'P':
            m = marks[os_[-1][0]]
            e = thrown(c.expect(both[m // TWIN], m % TWIN, os_[-1][2]), os_[-1][3])
            if not same(g, e):
                return g, e
        return g, f
    g, f = run(ops)
    if same(g, f):
        ctx.cls('unconfirmed')
        return
    again = True
    while again:
        again = False
        for i in range(len(ops) - 1):
            cand = ops[:i] + ops[i + 1:]
            x, y = run(cand)
            if not same(x, y):
                ops, g, f, again = cand, x, y, True
                break
    ctx.violation('history %r of roots %r: last outcome %s, on a fresh root %s' % (
        [(x[0], x[2] or x[1]) for x in ops], [(m // TWIN, m % TWIN) for m in marks], dec(g), dec(f)),
                  dict(kind='history', tree=tree_repr(both[0]), cpp=c.emit(both[0]), marks=marks,
                       cmds=history_cmds(marks, ops)[1],
                       ops=ops, got=dec(g), expected=dec(f), flags=c.flags))


# ---------------------------------------------------------------- C14 (suggestions)
def C14(ctx):
    simple(ctx, [('sug', cfg(modes=.5, depth=2, maxch=5, rootleaf=.6, enable=.25, alias=.1, deps=.05, help=.3,
                             w=W(flag=4, arg=4, cflag=1, oneof=1, agroup=1, fwd=1)), 14),
                 ('flat', cfg(modes=0, maxch=7, rootleaf=.3, enable=.2, alias=0, deps=0, w=W(flag=4, arg=3, oneof=1)), 8)],
           600, 0.05, 0.45,
           lambda kind, cov, exp, argv: 'E:suggest' in cov,
           'unknown tokens made by editing names of the tree and by random texts, in every mode and position; the '
           'suggestion compared with an exhaustive search by an independent distance; the distance itself compared '
           'with its definition and the metric axioms; non-trivial: a suggestion was made, or two different strings '
           'were measured')
    from checks_text import distance
    distance(ctx)


# ---------------------------------------------------------------- C27
def C27(ctx):
    ctx.rule = ('the same generated trees under differing build configurations (prefixes, compile-time string '
                'mechanism, language standard, compiler, allocator) against the reference model parameterised by the '
                'prefixes; non-trivial: the line contains a prefixed token or is rejected for one')
    # tag, flags, long prefix, short prefix, C++17 strings, standard, compiler
    confs = [('pre++', ['-DAR_LONG_PREFIX="++"', '-DAR_SHORT_PREFIX="+"'], '++', '+', False, None, None),
             ('slash', ['-DAR_LONG_PREFIX="/"', '-DAR_SHORT_PREFIX="/"'], '/', '/', False, None, None),
             ('utf8', ['-DAR_LONG_PREFIX="\u2192\u2192"', '-DAR_SHORT_PREFIX="\u2192"'], '\u2192\u2192', '\u2192', False, None, None),
             ('cpp17str', ['-DAR_DISABLE_CPP20_STRINGS=true'], '--', '-', True, None, None),
             ('same-', ['-DAR_LONG_PREFIX="-"', '-DAR_SHORT_PREFIX="-"'], '-', '-', False, None, None),
             ('alloc', ['-include', HERE + '/cpp/alloc.hpp', '-DAR_ALLOCATOR=rt_alloc', '-DRT_VARIANTS'], '--', '-', False, None, None),
             ('std17', ['-I' + HERE + '/cpp/shim17'], '--', '-', True, 'c++17', None),
             ('gcc', [], '--', '-', False, None, 'g++')]

    def run(conf):
        tag, flags, lp, sp, c17, std, cxx = conf
        if ctx.late() and ctx.evals:
            ctx.cls('config-skipped-late')
            return
        c = TreeCheck(ctx, flags=flags, lp=lp, sp=sp, cpp17=c17, std=std, cxx=cxx)
        try:
            p = cfg(modes=.2, maxch=4, rootleaf=.2, help=0, markers_ok=True)
            c.campaign([(tag, p, nt(ctx, 4, 50))], nt(ctx, 350, 1200), .5, .3,
                       lambda kind, cov, exp, argv: any(a.startswith(sp) for a in argv))
        finally:
            c.close()
        if tag in ('pre++', 'slash', 'same-') and ctx.quick:
            return
        import checks_help
        h = TreeCheck(ctx, flags=flags, lp=lp, sp=sp, cpp17=c17, std=std, cxx=cxx, help_=True)
        try:
            p = cfg(help=1, modes=.4, maxch=3, rootleaf=.2, enable=.2, bounds=.4, accept=checks_help.wants_help)
            n = checks_help.loop(ctx, h, checks_help.helptrees(ctx, h, [(tag + 'h', p, nt(ctx, 1, 20))]), nt(ctx, 80, 300))
            with ctx.lock:
                ctx.extra['help_trees'] = ctx.extra.get('help_trees', 0) + n
        finally:
            h.close()
    with ThreadPoolExecutor(len(confs)) as ex:
        list(ex.map(run, confs))


CHECKS = dict(C01=C01, C02=C02, C03=C03, C04=C04, C05=C05, C06=C06, C07=C07, C08=C08, C09=C09, C10=C10,
              C11=C11, C12=C12, C14=C14, C27=C27)
