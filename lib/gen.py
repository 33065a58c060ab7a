"""Random generation of well-formed trees, of intended (acceptable) command lines and of mutations."""
import copy
import random
import re
from tree import *
from model import Model, graphemes, custom, parse_value, Err, Custom, TRUE, FALSE, N, L, S

LONGS = ['alpha', 'beta', 'gamma', 'delta', 'epsilon', 'alphabet', 'al', 'alpha-two', '\u00fcber',
         '\u65e5\u672c', 'na\u00efve', 'x1', 'verbose', 'ver', 'foo', 'foobar', 'bar', 'output', 'out',
         'in', 'log-level', 'ab', 'a-b', 'zeta', 'eta', 'theta', 'caf\u00e9', 'w2']
SHORTS = list('abcdefghijkmnoqrstuvwxyzABVX') + ['1', '7', '\u00e9', '\u00df', '\u6f22', 'e\u0301',
                                                '\U0001F600']
MODES = ['build', 'run', 'list', 'add', 'remove', 'addr', 'copy', '\u30e2\u30fc\u30c9', 'b2', 'sub',
         'sub-mode', 'bu']
POSN = ['SRC', 'DST', 'FILES', 'ARG', 'Ziel']
MARKERS = ['--', 'END', ';', '--end', '\u2702']
SEPS = ['=', ':', '\uff1a', '+', '\u2550', '=', '=']
WORDS = ['hello', 'a', 'file.txt', 'x y', '\u00e9t\u00e9', '', '-', '--', '--foo', '-a', '42', '-7',
         'END', ';', '0', 'k=v', '=', '\u65e5\u672c\u8a9e', 'true', 'no', '3.5', 'e\u0301', '--alpha=1',
         '1;2', '-5;+9', 'on', '\U0001F600\U0001F600', '/tmp/x', '2147483648', '-1', '65536', '1e3']
DESCS = ['A flag', 'Sets the level of output', 'Path to read', '\u65e5\u672c\u8a9e help text',
         'Long description that has to be wrapped when the terminal is narrow enough to need it, '
         'which is not always']
ARGT = ['int', 'int', 'long long', 'short', 'unsigned short', 'unsigned', 'std::uint64_t', 'double', 'bool',
        'std::string', 'std::string', 'std::string_view', 'std::optional<int>', 'std::filesystem::path',
        'std::uint8_t', 'std::int8_t', 'std::optional<std::uint64_t>']
VECT = ['std::vector<int>', 'std::vector<std::string>', 'std::vector<std::string_view>',
        'std::vector<double>', 'std::vector<bool>', 'std::list<std::string>', 'std::deque<long long>']
BOUNDT = ['std::uint8_t', 'std::int8_t', 'int', 'long long', 'short', 'unsigned short', 'unsigned', 'std::uint64_t']


def gen_value(r, vt, lo=None, hi=None, words=WORDS):
    """A value of type vt (within bounds)"""
    if vt in INTS:
        a, b = INTS[vt]
        a = a if lo is None else lo
        b = b if hi is None else hi
        c = r.random()
        if c < 0.15:
            return a
        if c < 0.3:
            return b
        if c < 0.7:
            x = r.randint(max(a, -100), min(b, 100)) if max(a, -100) <= min(b, 100) else a
            return x
        return r.randint(a, b)
    if vt == 'double':
        if lo is not None or hi is not None:
            a = lo if lo is not None else -1000.0
            b = hi if hi is not None else 1000.0
            return r.choice([a, b, (a + b) / 2])
        return r.choice([0.0, 1.5, -2.25, 1e10, r.uniform(-1000, 1000), 3.0, 0.1, r.uniform(-1, 1) * 1e-8])
    if vt == 'bool':
        return r.random() < 0.5
    if vt in ('std::string', 'std::string_view', 'std::filesystem::path'):
        return r.choice(words)
    if vt.startswith('std::optional<'):
        return gen_value(r, elem(vt))
    if vt == 'Col':
        return r.randrange(3)
    if vt == 'Pt':
        return (r.randint(-99, 99), r.randint(-99, 99))
    if is_vec(vt):
        return [gen_value(r, elem(vt)) for _ in range(r.randint(0, 3))]
    raise KeyError(vt)


def text_of(r, vt, v):
    """A spelling of value v"""
    if vt in INTS:
        s = str(v)
        if r.random() < 0.05 and v >= 0:
            s = '+' + s
        if r.random() < 0.05:
            s = s[:1] + '00' + s[1:] if s[0] in '+-' else '00' + s
        return s
    if vt == 'double':
        return repr(v)
    if vt == 'bool':
        return r.choice(TRUE if v else FALSE)
    if vt.startswith('std::optional<'):
        return text_of(r, elem(vt), v)
    if vt == 'Col':
        return ('red', 'green', 'blue')[v]
    if vt == 'Pt':
        return '%d;%d' % v
    return v


class Cfg:
    """Generator profile"""
    def __init__(self, **kw):
        self.modes = 0.45          # probability of named modes
        self.depth = 2
        self.anon = 0.75
        self.help = 0.2
        self.rootleaf = 0.4
        self.maxch = 6
        self.w = dict(flag=4, cflag=2, arg=5, marg=2, pos=3, fwd=1, oneof=1.5, agroup=1)
        self.alias = 0.3
        self.deps = 0.25
        self.enable = 0.15
        self.sep = 0.3
        self.bounds = 0.25
        self.req = 0.15
        self.dflt = 0.25
        self.offb = 0      # fallback values outside of the node's bounds
        self.desc = 0.0
        self.lists = 0.15
        self.marker = 0.5
        self.cust = 0.12
        self.alias_in_group = 0.3
        self.err_name = 0.0
        self.group_bounds = 0.3
        self.short = 0.6
        self.seps = SEPS
        self.shorts = SHORTS
        self.longs = LONGS
        self.argt = ARGT
        self.alias_chain = 0.3
        self.__dict__.update(kw)


def refused(n):
    """is the fallback value of n outside of its own bounds?"""
    v = n.dflt[0] if n.dflt is not None and len(n.dflt) == 1 else None
    return v is not None and (n.minv is not None and v < n.minv or n.maxv is not None and v > n.maxv)


class TreeGen:
    def __init__(self, r, cfg=None):
        self.r = r
        self.c = cfg or Cfg()
        self.rid = 0
        self.bits = 0

    def next_rid(self):
        self.rid += 1
        return self.rid

    def p(self, x):
        return self.r.random() < x

    # -- naming within a scope
    def names(self, n, scope, need=None):
        r = self.r
        while True:
            lg = sh = None
            k = r.random()
            if k < self.c.short or need == 'both':
                sh = r.choice(self.c.shorts)
            if sh is None or k < 0.4 or need == 'both':
                lg = r.choice(self.c.longs)
            if (lg and ('L', lg) in scope) or (sh and ('S', sh) in scope):
                continue
            break
        if lg:
            scope.add(('L', lg))
        if sh:
            scope.add(('S', sh))
        n.long, n.short = lg, sh
        n.bare = self.p(0.6)
        n.perm = r.randrange(64)
        if self.p(self.c.desc):
            n.desc = r.choice(DESCS)

    def bounds(self, n, vt):
        if vt not in BOUNDT and vt != 'double':
            return
        a, b = INTS.get(vt, (-100000, 100000))
        lo = self.r.choice([None, 0, 1, 5, a, self.r.randint(max(a, -50), 40)])
        hi = self.r.choice([None, 3, 10, 100, b, 60])
        if lo is not None and hi is not None and lo > hi:
            lo, hi = hi, lo
        if lo is None and hi is None:
            lo = 0
        n.minv, n.maxv, n.rtb = lo, hi, self.p(0.5)
        n.bint = self.p(0.5) or vt == 'double'

    def inb(self, n, v):
        return (n.minv is None or v >= n.minv) and (n.maxv is None or v <= n.maxv)

    def leaf(self, kind, scope, mode_last, in_group=False, vt=None, fixed=None):
        r, c = self.r, self.c
        n = Node(k=kind)
        if kind in ('flag', 'cflag', 'arg', 'marg'):
            self.names(n, scope)
        if kind == 'cflag':
            n.vt = vt or r.choice(['int', 'unsigned', 'long long', 'short', 'Col', 'std::uint8_t'])
            if not in_group:
                if self.p(c.bounds):
                    n.minv, n.maxv, n.rtb = r.choice([(None, 3), (1, None), (1, 3), (0, 2), (2, 4)]) + (self.p(.5),)
                if self.p(0.2):
                    n.dflt = [r.choice([1, 2, 7])]
        if kind == 'arg':
            n.vt = vt or r.choice(c.argt)
            if vt is None and self.p(c.cust):
                n.vt, n.cust = r.choice([('int', 'rt::cp_len'), ('std::string', 'rt::cp_brk'),
                                         ('Pt', 'rt::cp_pt'), ('Col', 'rt::cp_col')])
            if n.vt == 'Col':
                n.cust = 'rt::cp_col'
            if self.p(c.sep):
                n.sep = r.choice([s for s in c.seps if s not in (n.long or '') and s != n.short])
            if not n.cust and self.p(c.bounds):
                self.bounds(n, n.vt)
            if not in_group:
                self.presence(n)
        if kind == 'marg':
            n.vt = vt or r.choice(VECT)
            if fixed is not None:
                n.mnc = n.mxc = fixed
            elif mode_last and not in_group and self.p(0.5):
                n.mnc, n.mxc = r.choice([(None, None), (1, 3), (2, None), (2, 4), (1, 2)])
                if self.p(c.marker):
                    n.marker = r.choice(MARKERS)
            elif self.p(c.marker):
                n.mnc, n.mxc = r.choice([(None, None), (1, 3), (2, None), (2, 4), (1, 2)])
                n.marker = r.choice(MARKERS)
            else:
                n.mnc = n.mxc = r.choice([2, 3])
            if not in_group:
                self.presence(n)
        return n

    def off_bounds(self, n, v, vt):
        """sometimes a fallback value that the node's own bounds refuse"""
        if self.c.offb and vt in INTS and (n.minv is not None or n.maxv is not None) and self.p(self.c.offb):
            lo, hi = INTS[vt]
            c = [x for x in ([n.minv - 1, n.minv - 3] if n.minv is not None else []) +
                 ([n.maxv + 1, n.maxv + 2] if n.maxv is not None else []) if lo <= x <= hi]
            if c:
                return self.r.choice(c)
        return v

    def presence(self, n):
        r, c = self.r, self.c
        k = r.random()
        if k < c.req:
            n.req = True
        elif k < c.req + c.dflt:
            for _ in range(20):
                v = gen_value(r, n.vt, n.minv, n.maxv)
                n.dflt = [self.off_bounds(n, v, n.vt)]
                break
        elif k < c.req + c.dflt + c.enable * 0.5 and self.bits < 6:
            n.en, n.enreq = self.bit(), True
            if n.minv is not None or n.maxv is not None or self.p(0.6):
                n.enreq_d = [self.off_bounds(n, gen_value(r, n.vt, n.minv, n.maxv), n.vt)]

    def bit(self):
        self.bits += 1
        return self.bits - 1

    def group(self, kind, scope):
        r = self.r
        g = Node(k=kind, perm=r.randrange(64))
        if self.p(0.25):
            g.disp = r.choice(['Pick: ', 'Choose one: ', 'Gruppe \u00fc: '])
        if kind == 'oneof':
            cnt = r.choice([2, 2, 3])
            types = []
            while len(types) < cnt:
                k = r.choice(['flag', 'arg', 'arg', 'arg', 'marg'])
                t = 'bool' if k == 'flag' else r.choice(self.c.argt if k == 'arg' else VECT)
                if t not in [x[1] for x in types] and not (
                        t.startswith('std::optional') or t == 'std::filesystem::path') :
                    types.append((k, t))
            # conversions that make assignment to the variant ambiguous are not a concern: every
            # alternative is assigned from exactly its own type
            for k, t in types:
                g.ch.append(self.leaf(k, scope, False, True, None if k == 'flag' else t))
            if self.p(0.4):
                g.req = True
            else:
                i = r.randrange(cnt)
                ch = g.ch[i]
                ts = [value_type(x) for x in g.ch]
                g.dflt = ('v', i, gen_value(r, ts[i], ch.minv, ch.maxv))
        else:
            what = r.choice(['arg', 'cflag', 'marg', 'arg', 'mixbool', 'mix', 'mix'])
            cnt = r.choice([2, 2, 3])
            if what == 'flag':
                ks = [('flag', None)] * cnt
            elif what == 'mixbool':
                ks = [('flag', None), ('arg', 'bool')]
            elif what == 'arg':
                ks = [('arg', r.choice(self.c.argt))] * cnt
            elif what == 'cflag':
                ks = [('cflag', r.choice(['int', 'unsigned', 'Col']))] * cnt
            elif what == 'mix':
                t = r.choice(['int', 'Col', 'Col', 'short'])
                ks = [('cflag', t), ('arg', t)]
                r.shuffle(ks)
            else:
                ks = [('marg', r.choice(VECT))] * cnt
            for k, t in ks:
                g.ch.append(self.leaf(k, scope, False, True, t))
            vt = value_type(g)
            if what in ('cflag', 'arg', 'mix') and self.p(self.c.group_bounds):
                for x in g.ch:
                    x.minv = x.maxv = None
                if what == 'cflag' or what == 'mix':
                    g.minv, g.maxv = r.choice([(None, 3), (0, 3), (1, 4)])
                elif vt in BOUNDT:
                    self.bounds(g, vt)
                g.rtb, g.bint = self.p(0.5), self.p(0.5)
            if self.p(0.4):
                g.req = True
            elif what == 'cflag' or what == 'mix':
                g.dflt = [r.choice([1, 2])]
            else:
                lo, hi = g.minv, g.maxv
                g.dflt = [self.off_bounds(g, gen_value(r, vt, lo, hi), vt)]
        return g

    def mode_children(self, m, scope):
        r, c = self.r, self.c
        kinds = r.choices(list(c.w), weights=list(c.w.values()), k=r.randint(1, c.maxch))
        npos = min(3, kinds.count('pos'))
        nfwd = 1 if 'fwd' in kinds and npos == 0 else 0
        rest = [k for k in kinds if k not in ('pos', 'fwd')]
        if not rest and not npos and not nfwd:
            rest = ['flag']
        for i, k in enumerate(rest):
            last = i == len(rest) - 1 and not npos and not nfwd
            if k in ('oneof', 'agroup'):
                m.ch.append(self.group(k, scope))
            else:
                m.ch.append(self.leaf(k, scope, last))
        # run-time enables on plain leaves
        for n in list(m.walk()):
            if n is m or n.k in ('oneof', 'agroup') or n.en is not None or n.req or self.bits >= 6:
                continue
            if self.p(c.enable):
                n.en = self.bit()
        # dependencies: only on nodes declared earlier
        flat = [n for n in m.walk() if n is not m and n.named and n.k != 'mode']
        for i, n in enumerate(flat):
            if i and self.p(c.deps):
                own = [g for g in m.ch if n in g.ch]
                cand = [x for x in flat[:i] if not (own and x in own[0].ch)]
                if cand:
                    ds = r.sample(cand, min(len(cand), r.choice([1, 1, 2])))
                    n.deps = [('L', x.long) if x.long and (not x.short or self.p(.5)) else ('S', x.short)
                              for x in ds]
        # aliases
        al = []
        for _ in range(r.choice([1, 1, 2])):
            if not self.p(c.alias):
                continue
            byc = {}
            for n in flat + (al if self.p(c.alias_chain) else []):
                if (n.alias and n not in al) or n.deps or (n.en is not None):
                    continue
                if any(n in g.ch for g in m.ch) and not self.p(c.alias_in_group):
                    continue
                cn = n.counts()
                if cn[0] == cn[1]:
                    byc.setdefault(cn[0], []).append(n)
            if not byc:
                continue
            cnt = r.choice(list(byc))
            ts = r.sample(byc[cnt], min(len(byc[cnt]), r.choice([1, 2, 2, 3])))
            if cnt == 0:
                a = self.leaf('flag', scope, False, True)
            elif cnt == 1:
                a = self.leaf('arg', scope, False, True)
                a.cust = None
                if a.vt in ('Pt', 'Col'):
                    a.vt = 'int'
            else:
                a = self.leaf('marg', scope, False, True, fixed=cnt)
            a.minv = a.maxv = a.dflt = None
            a.alias = [('L', x.long) if x.long and (not x.short or self.p(.5)) else ('S', x.short)
                       for x in ts]
            al.append(a)
        # an unbounded list-like node must stay last
        varlast = bool(m.ch) and m.ch[-1].k == 'marg' and not m.ch[-1].marker and \
            m.ch[-1].counts()[0] != m.ch[-1].counts()[1]
        for a in al:
            hi = len(m.ch) - (1 if varlast else 0)
            m.ch.insert(r.randint(0, hi), a)
        # positionals and forwarding
        used = set()
        for i in range(npos):
            last = i == npos - 1
            nm = r.choice([x for x in POSN if x not in used])
            used.add(nm)
            n = Node(k='pos', disp=nm, bare=self.p(.6), perm=r.randrange(64))
            if self.p(c.desc):
                n.desc = r.choice(DESCS)
            k = r.random()
            if k < 0.4:
                n.mnc = n.mxc = 1
                n.vt = r.choice(self.c.argt)
                if self.p(c.bounds):
                    self.bounds(n, n.vt)
                if self.p(c.cust):
                    n.vt, n.cust, n.minv, n.maxv = 'std::string', 'rt::cp_brk', None, None
            elif k < 0.6:
                n.mnc = n.mxc = r.choice([2, 3])
                n.vt = r.choice(VECT)
            else:
                n.vt = r.choice(VECT)
                if last and self.p(0.5):
                    n.mnc, n.mxc = r.choice([(None, None), (0, 2), (1, 3), (2, None), (None, 2)])
                else:
                    n.mnc, n.mxc = r.choice([(None, None), (0, 2), (1, 3), (2, None), (None, 2)])
                    n.marker = r.choice(MARKERS)
            q = r.random()
            if q < 0.2 and n.counts()[0] >= 1:
                n.req = True
            elif q < 0.4:
                n.dflt = [gen_value(r, n.vt, n.minv, n.maxv)]
            elif q < 0.5 and self.bits < 6:
                n.en, n.enreq = self.bit(), self.p(.5)
                if n.enreq:
                    n.enreq_d = [gen_value(r, n.vt, n.minv, n.maxv)]
            m.ch.append(n)
            if (n.marker or n.mnc is not None and n.mnc == n.mxc) and self.p(.15):
                # another of exactly the same type
                n = copy.deepcopy(n)
                if n.dflt is not None:
                    n.dflt = [gen_value(r, n.vt, n.minv, n.maxv)]
                if n.en is not None:
                    n.en = self.bit()
                if n.enreq_d is not None:
                    n.enreq_d = [gen_value(r, n.vt, n.minv, n.maxv)]
                m.ch.append(n)
        if nfwd:
            if varlast:
                pass
            else:
                n = Node(k='fwd', none=r.choice(['--', 'exec', '---', '->']), bare=self.p(.6),
                         perm=r.randrange(64))
                n.mnc, n.mxc = r.choice([(None, None), (None, None), (1, None), (1, 3), (2, 2)])
                if self.p(0.2):
                    n.req = True
                m.ch.append(n)
        if not m.ch:
            m.ch.append(self.leaf('flag', scope, False))

    def wrap_lists(self, n):
        if len(n.ch) >= 2 and self.p(self.c.lists):
            a = self.r.randrange(len(n.ch) - 1)
            b = self.r.randint(a + 1, len(n.ch))
            n.lists = [(a, b)]

    def mode(self, names, depth, anon):
        r = self.r
        m = Node(k='mode', perm=r.randrange(64), bare=self.p(.6))
        scope = set()
        if not anon:
            m.none = r.choice([x for x in MODES if x not in names])
            names.add(m.none)
            if self.p(self.c.desc):
                m.desc = r.choice(DESCS)
            subs = []
            if depth > 1 and self.p(0.4):
                sn = set()
                for _ in range(r.choice([1, 2])):
                    subs.append(self.mode(sn, depth - 1, False))
            if subs and self.p(0.5):
                m.ch = subs
                if self.p(0.25):
                    m.rid = self.next_rid()
            else:
                self.mode_children(m, scope)
                # nodes of exactly the same type in the child modes
                for s in subs:
                    taken = set()
                    for n in s.walk():
                        taken |= {n.long, n.short, n.none}
                    for c in m.ch:
                        if s.rid is not None and c.k in ('flag', 'cflag', 'arg') and not c.alias and not c.deps and \
                                not ({c.long, c.short} - {None}) & taken and self.p(.35):
                            taken |= {c.long, c.short}
                            s.ch.insert(0, copy.deepcopy(c))
                # names of an alias / dependent reference must not re-occur in child modes
                refs = set(x for n in m.walk() for x in (n.alias or []) + (n.deps or []))
                ok = []
                for s in subs:
                    inner = set()
                    for n in s.walk():
                        if n.long:
                            inner.add(('L', n.long))
                        if n.short:
                            inner.add(('S', n.short))
                    if not (inner & refs):
                        ok.append(s)
                k = r.randint(0, max(0, len(m.ch) - 1)) if m.ch and m.ch[-1].k in ('pos', 'fwd', 'marg') else len(m.ch)
                first_pos = [i for i, c in enumerate(m.ch) if c.k == 'pos']
                if first_pos:
                    k = min(k, first_pos[0])
                if self.p(.5):
                    k = r.randint(0, k)
                m.ch[k:k] = ok
                m.rid = self.next_rid()
            if self.bits < 6 and self.p(self.c.enable):
                m.en = self.bit()
        else:
            self.mode_children(m, scope)
            m.rid = self.next_rid()
            if self.p(self.c.err_name):
                m.err = 'anon!'
            if self.bits < 6 and self.p(self.c.enable):
                m.en = self.bit()
        self.wrap_lists(m)
        return m

    def tree(self):
        r, c = self.r, self.c
        root = Node(k='root', perm=r.randrange(64))
        scope = set()
        if self.p(c.help):
            h = Node(k='help', long='help', short='h', bare=self.p(.5), perm=r.randrange(64),
                     rid=self.next_rid(), flat=self.p(.3))
            if self.p(0.3):
                h.short = None
            if self.p(c.desc):
                h.desc = 'Display help'
            scope |= {('L', 'help'), ('S', 'h')}
            root.ch.append(h)
        if self.p(c.rootleaf):
            for _ in range(r.choice([1, 1, 2])):
                k = r.choice(['flag', 'flag', 'arg', 'pos1'])
                if k == 'pos1':
                    continue
                n = self.leaf(k, scope, False, True)
                n.rid = self.next_rid()
                if self.bits < 6 and self.p(c.enable):
                    n.en = self.bit()
                root.ch.append(n)
        r.shuffle(root.ch)
        names = set()
        if self.p(c.modes):
            for _ in range(r.choice([1, 2, 2, 3])):
                root.ch.append(self.mode(names, c.depth, False))
        if self.p(c.anon) or not any(x.k == 'mode' for x in root.ch):
            root.ch.append(self.mode(names, 1, True))
        self.wrap_lists(root)
        for i, n in enumerate(root.walk()):
            n.nid = i
        root.bits = self.bits
        return root


# ---------------------------------------------------------------- intents
class Unusable(Exception):
    pass


class Part:
    """A piece of a command line: tokens plus what it provides and needs"""
    def __init__(self, toks, prov=(), needs=(), last=False, node=None, short=None, flagish=False):
        self.toks = toks
        self.prov = set(id(x) for x in prov)
        self.needs = set(id(x) for x in needs)
        self.last = last
        self.short = short
        self.flagish = flagish
        self.node = node


class Intent:
    """Builds acceptable command lines by construction, with the router call they must cause"""

    def __init__(self, root, r, mask, lp='--', sp='-', collapse=True):
        self.root, self.r, self.mask = root, r, mask
        self.lp, self.sp = lp, sp
        self.m = Model(root, mask, lp, sp)
        self.collapse = collapse and lp != sp

    def en(self, n):
        return n.en is None or bool((self.mask >> n.en) & 1)

    def label(self, n):
        o = []
        if n.long is not None:
            o.append(self.lp + n.long)
        if n.short is not None:
            o.append(self.sp + n.short)
        return self.r.choice(o)

    def value(self, n, group=None):
        """(text, value) acceptable for a single-value node"""
        r = self.r
        vt = n.vt if n.k != 'flag' else 'bool'
        lo, hi = n.minv, n.maxv
        if group is not None and group.k == 'agroup' and (group.minv is not None or group.maxv is not None):
            lo, hi = group.minv, group.maxv
        if n.cust:
            if n.cust == 'rt::cp_pt':
                v = gen_value(r, 'Pt')
                return text_of(r, 'Pt', v), v
            if n.cust == 'rt::cp_col':
                for _ in range(30):
                    v = gen_value(r, 'Col')
                    if (lo is None or v >= lo) and (hi is None or v <= hi):
                        return text_of(r, 'Col', v), v
                raise Unusable()
            t = r.choice(WORDS)
            return t, custom(n.cust, t)
        v = gen_value(r, vt, lo, hi)
        t = text_of(r, vt, v)
        return t, parse_value(vt, t)

    def values(self, n, cnt):
        vt = value_type(n)
        if not is_vec(vt):
            t, v = self.value(n)
            return [t], v
        e = elem(vt)
        ts, vs = [], []
        for _ in range(cnt):
            for _k in range(30):
                v = gen_value(self.r, e)
                t = text_of(self.r, e, v)
                if not (n.marker and t == n.marker):
                    break
            else:
                raise Unusable()
            ts.append(t)
            vs.append(parse_value(e, t))
        return ts, vs

    def use(self, n, group=None, used=None):
        """Part for using leaf n directly -> (Part, value)"""
        deps = self.deps(n)
        if n.k == 'flag':
            lab = self.label(n)
            return Part([lab], [n], deps, node=n, short=n.short, flagish=True), True
        if n.k == 'cflag':
            lab = self.label(n)
            return Part([lab], [n], deps, node=n, short=n.short, flagish=True), 1
        lab = self.label(n)
        if n.k == 'arg':
            t, v = self.value(n, group)
            if n.sep:
                if t == '' or (lab + n.sep + t).find(n.sep) != len(lab):
                    raise Unusable()
                return Part([lab + n.sep + t], [n], deps, node=n), v
            return Part([lab, t], [n], deps, node=n, short=n.short), v
        if n.k == 'marg':
            mn, mx = n.counts()
            cnt = mn if mn == mx else self.r.randint(mn, mx if mx is not None else mn + 3)
            if self.r.random() < 0.3 and mx is not None:
                cnt = mx
            ts, v = self.values(n, cnt)
            if n.marker:
                omit = self.r.random() < 0.25
                return Part([lab] + ts + ([] if omit else [n.marker]), [n], deps, node=n, last=omit), v
            return Part([lab] + ts, [n], deps, node=n, last=(mx is None or cnt < mx)), v
        raise Unusable()

    def deps(self, n):
        out = []
        if n.deps:
            mode = self.m.mode_of(n)
            for x in mode.walk():
                if any((k == 'L' and x.long == nm) or (k == 'S' and x.short == nm) for k, nm in n.deps):
                    out.append(x)
        return out

    def looks_named(self, mode, tok):
        """could tok (raw) be taken by a named node of the mode?"""
        for n in mode.walk():
            if n is mode or not n.named:
                continue
            t = tok
            if n.sep and n.sep in t:
                t = t[:t.index(n.sep)]
            tt = self.m.ttype_node(n, t)
            if self.m.match(n, tt):
                return True
            if n.k in ('flag', 'cflag') and n.short is not None and tt[0] == S and tt[1]:
                if graphemes(tt[1])[0] == n.short:
                    return True
        return False

    def mode_line(self, mode):
        """-> (tokens, router suffix, info)"""
        r = self.r
        parts = []
        vals = {}
        info = dict(used=0, collapsed=0, alias=0, groups=0, pos=0, deps=0)
        setby = set()
        child_of = {}
        for c in mode.ch:
            for x in c.walk():
                child_of[id(x)] = c

        def mark(n, v):
            c = child_of[id(n)]
            if n.multistage:
                vals[id(c)] = vals.get(id(c), 0) + 1
                return
            if id(c) in setby:
                raise Unusable()
            setby.add(id(c))
            vals[id(c)] = v if c is n or c.k == 'agroup' else self.m.wrap(c, n, v)

        usable = [c for c in mode.ch if c.k not in ('mode', 'pos', 'fwd') and not c.alias]
        density = r.choice([0.2, 0.5, 0.8, 1.0])
        # aliases first
        for a in mode.ch:
            if not a.alias or not self.en(a) or r.random() > 0.4:
                continue
            def targets(refs):
                o = []
                for x in mode.walk():
                    if any((k == 'L' and x.long == nm) or (k == 'S' and x.short == nm) for k, nm in refs):
                        o += targets(x.alias) if x.alias else [x]
                return o
            ts = targets(a.alias)
            if len(set(map(id, ts))) != len(ts) and not all(x.multistage for x in ts):
                continue
            if any(id(child_of[id(x)]) in setby for x in ts if not x.multistage):
                continue
            gs = [id(child_of[id(x)]) for x in ts if not x.multistage]
            if len(set(gs)) != len(gs):
                continue
            cnt = a.counts()[0]
            toks = None
            for _ in range(20):
                t0 = r.choice(ts)
                if cnt == 0:
                    cand = []
                elif cnt == 1:
                    cand = [self.value(t0, child_of[id(t0)] if child_of[id(t0)] is not t0 else None)[0]]
                else:
                    cand = self.values(t0, cnt)[0]
                good = True
                got = []
                for x in ts:
                    try:
                        c = child_of[id(x)]
                        v = self.m.parse_leaf(x, [(N, y) for y in cand])
                        if c.k == 'agroup' and not x.multistage and not (
                                (c.minv is None or v >= c.minv) and (c.maxv is None or v <= c.maxv)):
                            good = False
                        got.append(v)
                    except (Err, Custom):
                        good = False
                if good:
                    toks = cand
                    break
            if toks is None:
                continue
            lab = self.label(a)
            if a.sep:
                if not toks[0]:
                    continue
                line = [lab + a.sep + toks[0]]
            else:
                line = [lab] + toks
            for x, v in zip(ts, got):
                mark(x, v)
            parts.append(Part(line, ts, self.deps(a), node=a, short=a.short if cnt == 0 else None,
                              flagish=cnt == 0))
            info['alias'] += 1
        for c in usable:
            if c.k in ('oneof', 'agroup'):
                cand = [x for x in c.ch if self.en(x) and not x.alias]
                if not cand:
                    if c.req and id(c) not in vals:
                        raise Unusable()
                    continue
                if id(c) in setby:
                    continue
                if c.req or r.random() < density:
                    info['groups'] += 1
                    x = r.choice(cand)
                    if x.multistage:
                        for _ in range(r.randint(1, 3)):
                            x = r.choice([y for y in cand if y.multistage])
                            p, v = self.use(x, c)
                            parts.append(p)
                            mark(x, v)
                    else:
                        p, v = self.use(x, c)
                        parts.append(p)
                        mark(x, v)
                continue
            if not self.en(c):
                continue
            if id(c) in setby:
                continue
            if c.multistage:
                have = vals.get(id(c), 0)
                lo = c.minv if c.minv is not None else 0
                if have == 0 and c.dflt is None and lo > 0 or r.random() < density:
                    target = max(lo, have + 1)
                    if c.maxv is not None and target > c.maxv:
                        if have == 0:
                            continue
                        target = have
                    hi = c.maxv if c.maxv is not None else target + 3
                    target = r.randint(target, min(hi, target + 3))
                    while vals.get(id(c), 0) < target:
                        p, v = self.use(c)
                        parts.append(p)
                        mark(c, v)
                continue
            need = c.req or (c.enreq and self.en(c)) or refused(c)
            if need or r.random() < density:
                p, v = self.use(c)
                parts.append(p)
                mark(c, v)
        info['used'] = len(parts)
        info['deps'] = sum(1 for p in parts if p.needs)
        lasts = [p for p in parts if p.last]
        if len(lasts) > 1:
            raise Unusable()
        toks = self.render(mode, parts, info)
        self.parts, self.rlasts = parts, lasts
        # positionals
        pos = [c for c in mode.ch if c.k == 'pos']
        fwd = [c for c in mode.ch if c.k == 'fwd']
        can = not lasts
        head = len(toks)
        ptoks = []
        for i, c in enumerate(pos):
            if not self.en(c):
                continue
            need = c.req or c.enreq
            if not can or (r.random() < 0.35 and not need):
                if need:
                    raise Unusable()
                # every later positional must be absent too
                can = False
                continue
            mn, mx = c.counts()
            later_needed = any((x.req or x.enreq) and self.en(x) for x in pos[i + 1:])
            cnt = r.randint(mn, mx if mx is not None else mn + 3)
            if not c.marker and later_needed and mx is not None:
                cnt = mx
            if cnt == 0 and not c.marker:
                can = False
                continue
            ts, v = self.values(c, cnt)
            first = ts[0] if ts else c.marker
            if self.looks_named(mode, first):
                raise Unusable()
            use_marker = bool(c.marker)
            if use_marker and (i == len(pos) - 1 or not later_needed) and ts and r.random() < 0.25:
                use_marker = False
            vals[id(c)] = v
            info['pos'] += 1
            ptoks += ts + ([c.marker] if use_marker else [])
            if not use_marker and not (mx is not None and cnt == mx and not c.marker):
                can = False
            if c.marker and not use_marker:
                can = False
        toks += ptoks
        for c in fwd:
            if self.en(c) and not lasts and (c.req or r.random() < 0.6):
                mn, mx = c.counts()
                ts = [r.choice(WORDS) for _ in range(r.randint(mn, mx if mx is not None else mn + 4))]
                toks += [c.none] + ts
                vals[id(c)] = ts
                info['pos'] += 1
            elif c.req:
                raise Unusable()
        self.tail = toks[head:]
        # defaults
        out = []
        for c in mode.ch:
            if c.no_result():
                continue
            vt = value_type(c)
            if id(c) in vals:
                v = vals[id(c)]
                if c.multistage or c.ch:
                    if not ((c.minv is None or v >= c.minv) and (c.maxv is None or v <= c.maxv)):
                        raise Unusable()
                out.append(ser(vt, v))
                continue
            if c.req:
                raise Unusable()
            if c.k == 'flag':
                v = False
            elif c.enreq:
                if self.en(c):
                    raise Unusable()
                v = c.enreq_d[0] if c.enreq_d is not None else default_init(vt)
            elif c.dflt is not None:
                v = c.dflt if vt.startswith('var<') else c.dflt[0]
            else:
                v = default_init(vt)
            if self.en(c) and ((c.minv is not None and v < c.minv) or (c.maxv is not None and v > c.maxv)):
                raise Unusable()
            out.append(ser(vt, v))
        return toks, '|r%d(%s)' % (mode.rid, ' '.join(out)), info

    def render(self, mode, parts, info):
        """tokens of the named parts, in an order that respects the dependencies"""
        # order: dependencies first, then whatever must be last
        r = self.r
        lasts = [p for p in parts if p.last]
        parts = list(parts)
        r.shuffle(parts)
        ordered, prov = [], set()
        pend = [p for p in parts if not p.last]
        while pend:
            ready = [p for p in pend if p.needs <= prov]
            if not ready:
                raise Unusable()
            p = ready[0]
            pend.remove(p)
            ordered.append(p)
            prov |= p.prov
        if lasts and not lasts[0].needs <= prov:
            raise Unusable()
        # collapse short forms
        toks = []
        i = 0
        while i < len(ordered):
            p = ordered[i]
            if self.collapse and p.flagish and p.short and r.random() < 0.6:
                j = i
                g = ''
                tail = []
                while j < len(ordered) and ordered[j].short:
                    g += ordered[j].short
                    j += 1
                    if not ordered[j - 1].flagish:
                        tail = ordered[j - 1].toks[1:]
                        break
                    if r.random() < 0.25:
                        break
                # the collapsed text must split back into exactly these characters, and must not
                # read as a long-form token
                seg = [q.short for q in ordered[i:j]]
                if j - i > 1 and graphemes(g) == seg and not (self.sp + g).startswith(self.lp) and \
                        self.collapsible(mode, g):
                    toks.append(self.sp + g)
                    toks += tail
                    info['collapsed'] += 1
                    i = j
                    continue
            toks += p.toks
            i += 1
        if lasts:
            toks += lasts[0].toks
        return toks

    def relabel(self, p):
        """the same part with another of its node's names"""
        n = p.node
        for pre, nm in ((self.lp, n.long), (self.sp, n.short)):
            if nm is not None and p.toks[0].startswith(pre + nm):
                rest = p.toks[0][len(pre + nm):]
                if rest == '' or (n.sep and rest.startswith(n.sep)):
                    lab = self.label(n)
                    if n.sep and (lab + rest).find(n.sep) != len(lab):
                        raise Unusable()
                    q = Part([lab + rest] + p.toks[1:], node=n, last=p.last, short=p.short, flagish=p.flagish)
                    q.prov, q.needs = p.prov, p.needs
                    return q
        raise Unusable()

    def rerender(self):
        """the last line() again: other order, other names, other collapsing -> argv"""
        if self.lastline is None:
            raise Unusable()
        path, m, tail = self.lastline
        toks = self.render(m, [self.relabel(p) for p in self.parts], dict(collapsed=0)) + tail
        argv = path + toks
        self.first_ok(m, argv, toks)
        return argv

    def collapsible(self, mode, g):
        """no other node may claim the collapsed token first (e.g. a separator inside it)"""
        for n in mode.walk():
            if n is not mode and n.sep and n.sep in g:
                return False
            if n.k == 'fwd' and n.none == self.sp + g:
                return False
        return True

    def first_ok(self, m, argv, toks):
        """raises Unusable if the first token would be taken by something else"""
        if m.none is None:
            # an anonymous mode only gets what no other root child claims
            if argv:
                for c in self.root.ch:
                    if c is m or not self.en(c):
                        continue
                    t = argv[0]
                    if c.k == 'mode':
                        if t == c.none:
                            raise Unusable()
                        continue
                    tt = t[:t.index(c.sep)] if c.sep and c.sep in t else t
                    if self.m.match(c, self.m.ttype_node(c, tt)):
                        raise Unusable()
                    k = self.m.ttype_node(c, tt)
                    if c.k == 'flag' and c.short is not None and k[0] == S and k[1] and \
                            graphemes(k[1])[0] == c.short:
                        raise Unusable()
            else:
                pass
        else:
            # the token after a mode name selects a child mode if it is one's name
            if toks:
                for c in m.ch:
                    if c.k == 'mode' and self.en(c) and toks[0] == c.none:
                        raise Unusable()

    def line(self):
        """-> (argv, expected response, info)"""
        r = self.r
        self.lastline = None
        cands = []

        def modes(n, path):
            for c in n.ch:
                if c.k == 'mode' and self.en(c):
                    p = path + ([c.none] if c.none else [])
                    if c.rid is not None:
                        cands.append((p, c))
                    modes(c, p)
        modes(self.root, [])
        leaves = [c for c in self.root.ch if c.k in ('flag', 'arg') and self.en(c)]
        if leaves and (not cands or r.random() < 0.1):
            c = r.choice(leaves)
            p, v = self.use(c)
            return p.toks, 'OK|r%d(%s)' % (c.rid, ser(value_type(c), v)), dict(used=1, root=1)
        if not cands:
            raise Unusable()
        path, m = r.choice(cands)
        toks, exp, info = self.mode_line(m)
        argv = path + toks
        self.first_ok(m, argv, toks)
        self.lastline = (path, m, self.tail)
        info['path'] = len(path)
        return argv, 'OK' + exp, info


# ---------------------------------------------------------------- mutations
def vocab(root, lp='--', sp='-'):
    v = []
    for n in root.walk():
        if n.long:
            v += [lp + n.long, lp + n.long]
            if n.sep:
                v += [lp + n.long + n.sep + '1', lp + n.long + n.sep]
        if n.short:
            v += [sp + n.short, sp + n.short]
            if n.sep:
                v += [sp + n.short + n.sep + '7']
        if n.none:
            v += [n.none, n.none, n.none]
        if n.marker:
            v.append(n.marker)
    shorts = [n.short for n in root.walk() if n.short]
    return v, shorts


def mutate(r, argv, voc, shorts, lp='--', sp='-', ops=range(15)):
    a = list(argv)
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        k = r.choice(ops)
        i = r.randrange(len(a)) if a else 0
        if k == 0 and a:
            del a[i]
        elif k == 1 and a:
            a.insert(r.randint(0, len(a)), a[i])
        elif k == 2 and len(a) > 1:
            j = r.randrange(len(a))
            a[i], a[j] = a[j], a[i]
        elif k == 3 and a:
            a = a[:i]
        elif k == 4:
            a.insert(r.randint(0, len(a)), r.choice(voc) if voc else 'x')
        elif k == 5:
            a.insert(r.randint(0, len(a)), r.choice(WORDS))
        elif k == 6 and a and a[i]:
            t = a[i]
            c = r.randrange(4)
            p = r.randrange(len(t))
            if c == 0:
                t = t[:p] + t[p + 1:]
            elif c == 1:
                t = t[:p] + r.choice('abxyz-=1\u00e9') + t[p:]
            elif c == 2:
                t = t[:p] + r.choice('abxyz-=1\u65e5') + t[p + 1:]
            else:
                t = t[:p]
            a[i] = t
        elif k == 7 and a:
            t = a[i]
            if t.startswith(lp):
                a[i] = sp + t[len(lp):]
            elif t.startswith(sp):
                a[i] = lp + t[len(sp):]
            else:
                a[i] = lp + t
        elif k == 8 and shorts:
            a.insert(r.randint(0, len(a)), sp + ''.join(r.choice(shorts) for _ in range(r.randint(1, 4))))
        elif k == 9 and a and '=' in a[i]:
            x, y = a[i].split('=', 1)
            a[i:i + 1] = [x, y]
        elif k == 10 and len(a) > 1 and i + 1 < len(a):
            a[i:i + 2] = [a[i] + '=' + a[i + 1]]
        elif k == 11 and a:
            a[i] = r.choice(WORDS)
        elif k == 12 and a:
            a[i] = r.choice(voc) if voc else ''
        elif k == 13:
            # the same number in another residue class, one past it, or with a fraction
            c = [(j, m) for j, t in enumerate(a) for m in [re.search(r'(?:^|[=:])([+-]?[0-9]{1,25})$', t)] if m]
            if c:
                i, m = r.choice(c)
                v = int(m.group(1))
                d = r.choice([1, -1, 2**8, -2**8, 2**16, -2**16, 2**32, -2**32, 2**32, 2**31, -2**31, 2**63, 2**64, -2**64, None])
                a[i] = a[i][:m.start(1)] + ('%d.5' % v if d is None else str(v + d))
        elif k == 14 and shorts and r.random() < .2:
            # more occurrences than the narrowest counter holds
            a.insert(r.randint(0, len(a)), sp + r.choice(shorts) * r.choice([127, 128, 255, 256, 257, 260]))
    return a[:14]


def soup(r, voc, shorts, lp='--', sp='-'):
    out = []
    for _ in range(r.choice([0, 1, 1, 2, 3, 4, 5, 7])):
        k = r.random()
        if k < 0.55 and voc:
            out.append(r.choice(voc))
        elif k < 0.9 or not shorts:
            out.append(r.choice(WORDS))
        else:
            out.append(sp + ''.join(r.choice(shorts) for _ in range(r.randint(1, 4))))
    return out
