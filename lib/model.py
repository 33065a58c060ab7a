"""Reference model of arg_router's documented parsing semantics, interpreting tree descriptions."""
import re
from tree import *

MSG = {
    'unknown_argument': 'Unknown argument',
    'unhandled_arguments': 'Unhandled arguments',
    'already_set': 'Argument has already been set',
    'failed_to_parse': 'Failed to parse',
    'no_arguments': 'No arguments passed',
    'min_value': 'Minimum value not reached',
    'max_value': 'Maximum value exceeded',
    'min_count': 'Minimum count not reached',
    'max_count': 'Maximum count exceeded',
    'suggest': None,
    'mode_requires': 'Mode requires arguments',
    'missing_required': 'Missing required argument',
    'too_few_alias': 'Too few values for alias',
    'dependent': 'Dependent argument missing (needs to be before the requiring token on the '
                 'command line)',
    'one_of': 'Only one argument from a "One Of" can be used at once',
    'missing_sep': 'Expected a value separator',
}
N, L, S = 0, 1, 2


class Err(Exception):
    def __init__(self, code, toks=()):
        self.code = code
        self.toks = list(toks)


class Custom(Exception):
    """an exception thrown by a user's custom parser"""

    def __init__(self, what):
        self.what = what


def graphemes(s):
    """Grapheme clusters, for the alphabets the generators use (no ZWJ/RI/Hangul sequences)"""
    out = []
    for c in s:
        if out and (0x300 <= ord(c) <= 0x36F or ord(c) == 0x200D or 0xFE00 <= ord(c) <= 0xFE0F or
                    0x1F3FB <= ord(c) <= 0x1F3FF):
            out[-1] += c
        else:
            out.append(c)
    return out


def lev(a, b):
    a, b = graphemes(a), graphemes(b)
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a):
        cur = [i + 1]
        for j, y in enumerate(b):
            cur.append(min(prev[j + 1] + 1, cur[-1] + 1, prev[j] + (x != y)))
        prev = cur
    return prev[-1]


TRUE = ('true', 'yes', 'y', 'on', '1', 'enable')
FALSE = ('false', 'no', 'n', 'off', '0', 'disable')
DBL = re.compile(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\Z', re.A)
INT = re.compile(r'[+-]?\d+\Z', re.A)
PTRE = re.compile(r'([+-]?\d+);([+-]?\d+)\Z', re.A)


def parse_value(vt, text):
    if vt == 'bool':
        if text in TRUE:
            return True
        if text in FALSE:
            return False
        raise Err('failed_to_parse', [(N, text)])
    if vt in INTS:
        lo, hi = INTS[vt]
        if INT.match(text):
            v = int(text)
            if lo <= v <= hi:
                return v
        raise Err('failed_to_parse', [(N, text)])
    if vt == 'double':
        if DBL.match(text):
            v = float(text)
            if v in (float('inf'), -float('inf')):
                raise Err('failed_to_parse', [(N, text)])
            return v
        if re.match(r'[+-]?(inf|infinity|nan)\Z', text, re.I):
            return float(text)
        raise Err('failed_to_parse', [(N, text)])
    if vt in ('std::string', 'std::string_view', 'std::filesystem::path'):
        return text
    if vt == 'Pt':
        return custom('rt::cp_pt', text)[::-1]
    if vt.startswith('std::optional<'):
        return parse_value(elem(vt), text)
    if is_vec(vt):
        return parse_value(elem(vt), text)
    raise KeyError(vt)


def custom(cust, text):
    if cust == 'rt::cp_len':
        b = text.encode()
        h = len(b) * 1000
        for c in b:
            h = (h * 31 + c) % 1000003
        return h
    if cust == 'rt::cp_brk':
        return '<' + text + '>'
    if cust == 'rt::cp_pt':
        m = PTRE.match(text)
        if not m:
            raise Custom('bad point ' + text)
        return (int(m.group(1)), int(m.group(2)))
    if cust == 'rt::cp_col':
        if text in ('red', 'green', 'blue'):
            return ('red', 'green', 'blue').index(text)
        raise Custom('bad colour ' + text)
    raise KeyError(cust)


class Target:
    __slots__ = ('node', 'tokens', 'subs')

    def __init__(self, node):
        self.node = node
        self.tokens = []
        self.subs = []


VALID, SKIP, SUBS = 'valid', 'skip', 'subs'


class Model:
    def __init__(self, root, mask=0, lp='--', sp='-', cover=None, same_prefix=None):
        self.root = root
        self.mask = mask
        self.lp, self.sp = lp, sp
        self.cover = cover if cover is not None else set()
        self.same = lp == sp
        self.parents = {}
        for n, ps in walk_parents(root):
            self.parents[id(n)] = ps

    # ---- tokens
    def ptxt(self, p):
        return ('', self.lp, self.sp)[p]

    def tstr(self, t):
        return self.ptxt(t[0]) + t[1]

    def ttype(self, text):
        if text.startswith(self.lp):
            return (L, text[len(self.lp):])
        if text.startswith(self.sp):
            return (S, text[len(self.sp):])
        return (N, text)

    def ttype_node(self, n, text):
        if n.long is not None and text.startswith(self.lp):
            return (L, text[len(self.lp):])
        if n.short is not None and text.startswith(self.sp) and not text.startswith(self.lp):
            return (S, text[len(self.sp):])
        return (N, text)

    @staticmethod
    def match(n, t):
        return ((n.long is not None and t == (L, n.long)) or
                (n.short is not None and t == (S, n.short)) or
                (n.none is not None and t == (N, n.none)))

    def errname(self, n):
        if n.k == 'mode' and n.none is None:
            return n.err if n.err is not None else '(Anon mode)'
        if n.k in ('oneof', 'agroup'):
            pre = n.disp if n.disp is not None else {'oneof': 'One of: ', 'agroup': 'Alias Group: '}[n.k]
            return pre + ','.join(self.tstr(self.ntok(c)) for c in n.ch)
        return n.err

    def ntok(self, n):
        e = self.errname(n)
        if e is not None:
            return (N, e)
        if n.disp is not None:
            return (N, n.disp)
        if n.long is not None:
            return (L, n.long)
        if n.short is not None:
            return (S, n.short)
        return (N, n.none)

    def enabled(self, n):
        return n.en is None or bool((self.mask >> n.en) & 1)

    # ---- policies' pre-parse phase
    def pre_parse(self, n, args, target, verify):
        """n: leaf node.  Returns Target or None; mutates args on a match"""
        proc, un = [], list(args)
        tgt = Target(n)
        st = VALID
        stored = None

        def step(fn):
            nonlocal st, stored
            if stored is not None or st == SKIP:
                return
            subs = st == SUBS
            try:
                r = fn()
            except Err as e:
                stored = e
                st = VALID  # an error, not a skip
                return
            st = SUBS if subs and r == VALID else r

        def p_enable():
            if self.enabled(n):
                self.cover.add('enabled')
                return VALID
            self.cover.add('disabled')
            return SKIP

        def p_sep():
            if not un:
                return VALID
            p, name = un[0]
            i = name.find(n.sep)
            if i < 0:
                t = self.ttype(name) if p == N else (p, name)
                if self.match(n, t):
                    raise Err('missing_sep', [self.ntok(n)])
                return SKIP
            val = name[i + len(n.sep):]
            if not val:
                return SKIP
            un.insert(1, (N, val))
            un[0] = (p, name[:i])
            self.cover.add('sep')
            return VALID

        def p_short():
            nonlocal proc
            allt = proc + un
            if not allt:
                return VALID
            p, name = allt[0]
            if p == N:
                t = self.ttype_node(n, name)
                if t[0] != S:
                    return VALID
                p, name = t
            elif p == L:
                return VALID
            if not name or len(name.encode()) == len(n.short.encode()):
                return VALID
            if not proc:
                proc.append(un.pop(0))
            g = graphemes(name)
            un[0:0] = [(S, x) for x in g[1:]]
            proc[0] = (S, g[0])
            if g[0] == n.short:
                self.cover.add('expand')
            return VALID

        def p_marker():
            start = 1 if n.named else 0
            allt = proc + un
            pos = None
            for i in range(start, len(allt)):
                if allt[i][1] == n.marker:
                    pos = i
                    break
            if pos is None:
                proc[:] = allt
                un[:] = []
            else:
                # the tokens before the marker are this node's, the marker itself vanishes
                proc[:] = allt[:pos]
                un[:] = allt[pos + 1:]
            return VALID

        def p_count():
            mn, mx = n.counts()
            off = 1 if n.named else 0
            mn += off
            if mx is not None:
                mx += off
            num = len(proc) + len(un)
            if n.marker:
                num = len(proc)
                if mx is not None and num > mx:
                    raise Err('max_count', [self.ntok(n)])
            if num < mn:
                raise Err('min_count', [self.ntok(n)])
            cnt = num if mx is None else min(mx, num)
            while len(proc) < cnt:
                proc.append(un.pop(0))
            return VALID

        def p_alias():
            cnt = n.counts()[0]
            allt = proc + un
            if cnt + 1 > len(allt):
                raise Err('too_few_alias', [self.ntok(n)])
            t = allt[0]
            if t[0] == N:
                t = self.ttype_node(n, t[1])
            if not self.match(n, t):
                return SKIP
            while len(proc) < cnt + 1:
                proc.append(un.pop(0))
            vals = proc[1:cnt + 1]
            mode = self.mode_of(n)

            def expand(refs):
                for m in mode.walk():
                    if any((k == 'L' and m.long == nm) or (k == 'S' and m.short == nm)
                           for k, nm in refs):
                        if m.alias:
                            self.cover.add('alias-chain')
                            expand(m.alias)
                            continue
                        s = Target(m)
                        s.tokens = list(vals)
                        tgt.subs.append(s)
            expand(n.alias)
            self.cover.add('alias%d' % min(len(tgt.subs), 2))
            del proc[:cnt + 1]
            return SUBS

        def p_dep():
            mode = self.mode_of(n)
            for m in mode.walk():
                if any((k == 'L' and m.long == nm) or (k == 'S' and m.short == nm)
                       for k, nm in n.deps):
                    if not any(s.node is m for s in target.subs):
                        raise Err('dependent', [self.ntok(m)])
            self.cover.add('dep-ok')
            return VALID

        if n.en is not None:
            step(p_enable)
        if n.sep:
            step(p_sep)
        if n.k in ('flag', 'cflag') and n.short is not None and not self.same:
            step(p_short)
        if n.marker:
            step(p_marker)
        if n.counts() is not None:
            step(p_count)
        if n.alias:
            step(p_alias)
        if n.deps:
            step(p_dep)

        if st == SKIP and stored is None:
            return None
        if n.named and (st != SUBS or stored is not None):
            if not proc:
                if not un:
                    return None
                proc.append(un.pop(0))
            if proc[0][0] == N:
                proc[0] = self.ttype_node(n, proc[0][1])
            if not self.match(n, proc[0]):
                return None
        if not verify(n):
            return None
        if stored is not None:
            raise stored
        args[:] = un
        if n.named and proc:
            proc.pop(0)
        tgt.tokens = proc
        self.cover.add(n.k)
        if n.counts() is not None and n.k in ('marg', 'pos', 'fwd'):
            self.cover.add('%s:%s' % (n.k, 'min' if len(proc) == n.counts()[0] else
                                      'max' if len(proc) == n.counts()[1] else 'mid'))
            if n.marker:
                self.cover.add('marker')
        return tgt

    def mode_of(self, n):
        for p in self.parents[id(n)]:
            if p.k in ('mode', 'root'):
                return p

    def pre_parse_any(self, n, args, target, verify):
        if n.k == 'oneof':
            def v2(c):
                for s in target.subs:
                    if s.node is not c and any(s.node is x for x in n.ch):
                        raise Err('one_of', [self.ntok(n)])
                return verify(c)
            for c in n.ch:
                t = self.pre_parse_any(c, args, target, v2)
                if t is not None:
                    v2(c)
                    self.cover.add('oneof')
                    return t
            return None
        if n.k == 'agroup':
            for c in n.ch:
                t = self.pre_parse_any(c, args, target, verify)
                if t is not None:
                    self.cover.add('agroup')
                    return t
            return None
        return self.pre_parse(n, args, target, verify)

    # ---- modes
    def mode_pre_parse(self, m, args):
        # policies of the mode itself (only runtime_enable possible here)
        if not self.enabled(m):
            return None
        if m.none is not None:
            if not args:
                return None
            t = args[0]
            if t[0] == N:
                t = self.ttype_node(m, t[1])
            if not self.match(m, t):
                return None
            args.pop(0)
            self.cover.add('mode')
            if args:
                for c in m.ch:
                    if c.k == 'mode':
                        r = self.mode_pre_parse(c, args)
                        if r is not None:
                            self.cover.add('nested-mode')
                            return r
        tgt = Target(m)
        matched = set()
        while args:
            front = args[0]
            hit = None
            for i, c in enumerate(m.ch):
                if c.k == 'mode':
                    continue

                def verify(rc, i=i):
                    if rc.multistage:
                        return True
                    if not rc.named:
                        return i not in matched
                    if i in matched:
                        raise Err('already_set', [front])
                    return True
                hit = self.pre_parse_any(c, args, tgt, verify)
                if hit is not None:
                    matched.add(i)
                    break
            if hit is None:
                if all(i in matched or not self.enabled(c) for i, c in enumerate(m.ch)):
                    raise Err('unhandled_arguments', list(args))
                self.unknown(m, front)
            if hit.subs:
                tgt.subs += hit.subs
            else:
                tgt.subs.append(hit)
        return tgt

    def bounds(self, n, v, who):
        if n.minv is not None and v < n.minv:
            raise Err('min_value', [self.ntok(who)])
        if n.maxv is not None and v > n.maxv:
            raise Err('max_value', [self.ntok(who)])
        self.cover.add('bound-ok')
        if v in (n.minv, n.maxv):
            self.cover.add('bound-edge')

    def parse_leaf(self, n, toks):
        if n.k in ('flag', 'cflag'):
            return True
        vt = value_type(n)
        if n.k == 'arg' or (n.k in ('marg', 'pos') and not is_vec(vt)):
            if not toks:
                return default_init(vt)
            t = toks[0][1]
            v = custom(n.cust, t) if n.cust else parse_value(vt, t)
            self.cover.add('custom' if n.cust else 'v:' + vt)
        else:
            v = [parse_value(vt, t[1]) for t in toks]
        if (n.minv is not None or n.maxv is not None):
            self.bounds(n, v, n)
        return v

    def wrap(self, group, child, v):
        vt = value_type(group)
        if vt.startswith('var<'):
            idx = [c for c in group.ch if not c.no_result()].index(child)
            return ('v', idx, v)
        return v

    def mode_parse(self, m, tgt):
        res = [None] * len(m.ch)
        have = [False] * len(m.ch)
        for s in tgt.subs:
            v = self.parse_leaf(s.node, s.tokens)
            if s.node.alias:
                continue
            for i, c in enumerate(m.ch):
                if any(x is s.node for x in c.walk()):
                    if s.node.multistage:
                        if not have[i]:
                            res[i], have[i] = 1, True
                        else:
                            if res[i] != INTS.get(value_type(s.node), (0, None))[1]:
                                res[i] += 1
                            else:
                                self.cover.add('saturated')
                            self.cover.add('multi2')
                    else:
                        if have[i]:
                            raise Err('already_set', [self.ntok(s.node)])
                        res[i] = v if c is s.node or c.k == 'agroup' else self.wrap(c, s.node, v)
                        have[i] = True
                    break
        for i, c in enumerate(m.ch):
            if c.no_result() or have[i]:
                continue
            vt = value_type(c)
            if c.k == 'flag':
                v = False
            elif c.req:
                raise Err('missing_required', [self.ntok(c)])
            elif c.enreq:
                if self.enabled(c):
                    raise Err('missing_required', [self.ntok(c)])
                v = c.enreq_d[0] if c.enreq_d is not None else default_init(vt)
                self.cover.add('enreq-default')
            elif c.dflt is not None:
                v = c.dflt if vt.startswith('var<') else c.dflt[0]
                self.cover.add('default')
            else:
                v = default_init(vt)
            if (c.minv is not None or c.maxv is not None) and self.enabled(c):
                self.bounds(c, v, c)
            res[i] = v
        for i, c in enumerate(m.ch):
            if c.no_result():
                continue
            if (c.multistage or c.ch) and self.enabled(c):
                if c.minv is not None or c.maxv is not None:
                    self.bounds(c, res[i], c)
        if m.rid is not None:
            out = [ser(value_type(c), res[i]) for i, c in enumerate(m.ch) if not c.no_result()]
            return '|r%d(%s)' % (m.rid, ' '.join(out))
        raise Err('mode_requires', [self.ntok(m)])

    # ---- errors
    def unknown(self, start, tok):
        t = tok if tok[0] != N else self.ttype(tok[1])
        best, score = None, None

        def rec(n, path, dis):
            nonlocal best, score
            for c in n.ch:
                d = dis or not self.enabled(c)
                p = path + [c]
                if not d:
                    for kind, nm in ((L, c.long), (S, c.short), (N, c.none)):
                        if nm is None:
                            continue
                        sc = lev(t[1], nm)
                        if score is None or sc < score:
                            score = sc
                            best = [self.ntok(x) for x in path] + [(kind, nm)]
                rec(c, p, d)
        rec(start, [], not self.enabled(start))
        if best is None:
            raise Err('unknown_argument', [tok])
        raise Err('suggest', [tok] + best)

    def message(self, e):
        self.cover.add('E:' + e.code)
        if e.code == 'suggest':
            return 'Unknown argument: %s. Did you mean %s?' % (
                self.tstr(e.toks[0]), ' '.join(self.tstr(t) for t in e.toks[1:]))
        m = MSG[e.code]
        if e.toks:
            m += ': ' + ', '.join(self.tstr(t) for t in e.toks)
        return m

    # ---- root
    def run(self, argv):
        """Returns ('OK', '|r..') or ('EX', message, code) or ('UE', what)"""
        try:
            return ('OK', self.parse_root([(N, a) for a in argv]))
        except Err as e:
            return ('EX', self.message(e), e.code)
        except Custom as c:
            self.cover.add('E:custom')
            return ('UE', c.what)

    def parse_root(self, args):
        front = args[0] if args else (N, '')
        for c in self.root.ch:
            if c.k == 'mode':
                t = self.mode_pre_parse(c, args)
            else:
                t = self.pre_parse(c, args, Target(self.root), lambda n: True)
            if t is not None:
                if args:
                    raise Err('unhandled_arguments', list(args))
                if t.node.k == 'mode':
                    return self.mode_parse(t.node, t)
                if t.node.k == 'help':
                    return self.help_parse(t.node, t.tokens)
                v = self.parse_leaf(t.node, t.tokens)
                if t.node.k == 'cflag':
                    return ''
                return '|r%d(%s)' % (t.node.rid, ser(value_type(t.node), v))
        if front[1] == '':
            raise Err('no_arguments')
        self.unknown(self.root, front)

    def help_parse(self, n, toks):
        node = self.root
        for t in toks:
            nxt = None
            for c in node.ch:
                if self.match(c, self.ttype_node(c, t[1])):
                    if not self.enabled(c):
                        raise Err('unknown_argument', [t])
                    nxt = c
                    break
            if nxt is None:
                raise Err('unknown_argument', [t])
            node = nxt
        return '|r%d(?help)' % n.rid

    def expect(self, argv):
        """The server's response line ('?help' marks help text not modelled here)"""
        r = self.run(argv)
        if r[0] == 'OK':
            return 'OK' + r[1]
        return '%s %s' % (r[0], (r[1].encode('utf-8')).hex())
