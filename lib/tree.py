"""Tree descriptions: the Python side of generated arg_router trees, and their C++ emission."""
import random

LONG = {'cpp': None}


class Node:
    """One node of a tree description.  `k` is the node kind:
    root mode flag cflag arg marg pos fwd oneof agroup help"""
    DEF = dict(k=None, long=None, short=None, none=None, desc=None, disp=None, err=None,
               vt=None, sep=None, req=False, dflt=None, minv=None, maxv=None, rtb=False,
               mnc=None, mxc=None, marker=None, alias=None, deps=None, en=None, enreq=False,
               enreq_d=None, cust=None, rid=None, ch=None, bare=False, perm=0, flat=False,
               nid=0, lists=None, extra=None, help_router=True, fmt=None, pre=None, bint=False, alt=None)

    def __init__(self, **kw):
        d = dict(self.DEF)
        d.update(kw)
        for k, v in d.items():
            setattr(self, k, v)
        if self.ch is None:
            self.ch = []

    # --- derived properties mirroring the library's notion of a node
    @property
    def named(self):
        return bool(self.long or self.short or self.none)

    @property
    def multistage(self):
        return self.k == 'cflag'

    def counts(self):
        """(min,max) token counts, None for unbounded; None when not applicable"""
        if self.k in ('flag', 'cflag'):
            return (0, 0)
        if self.k == 'arg':
            return (1, 1)
        if self.k == 'help':
            return (0, None)
        if self.k in ('marg', 'pos', 'fwd'):
            mn = self.mnc
            mx = self.mxc
            if mn is None and mx is None:
                return ({'marg': 1, 'pos': 0, 'fwd': 0}[self.k], None)
            return (mn or 0, mx)
        return None

    def no_result(self):
        return self.k in ('mode', 'help') or bool(self.alias)

    def walk(self):
        yield self
        for c in self.ch:
            for x in c.walk():
                yield x

    def clone(self):
        n = Node(**{k: getattr(self, k) for k in self.DEF})
        n.ch = [c.clone() for c in self.ch]
        return n


def walk_parents(n, parents=()):
    yield n, parents
    for c in n.ch:
        for x in walk_parents(c, (n,) + parents):
            yield x


# ---------------------------------------------------------------- types
INTS = {'int': (-2**31, 2**31 - 1), 'long long': (-2**63, 2**63 - 1), 'short': (-2**15, 2**15 - 1),
        'unsigned short': (0, 2**16 - 1), 'unsigned': (0, 2**32 - 1),
        'std::uint64_t': (0, 2**64 - 1), 'std::uint8_t': (0, 255), 'std::int8_t': (-128, 127)}


def is_vec(vt):
    return vt.startswith('std::vector<') or vt.startswith('std::list<') or vt.startswith('std::deque<')


def elem(vt):
    return vt[vt.index('<') + 1:-1]


def cpp_type(vt):
    if vt.startswith('var<'):
        return 'std::variant<' + vt[4:-1] + '>'
    return vt


def cpp_param(n):
    """router parameter type; a forwarding_arg's vector uses the configured allocator"""
    t = cpp_type(value_type(n))
    if n.k == 'fwd' or any(c.k == 'fwd' for c in n.ch):
        t = t.replace('std::vector<std::string_view>', 'ar::vector<std::string_view>')
    return t


def cpp_str(s):
    """C++ string literal of a Python str (UTF-8 source)"""
    out = []
    for c in s:
        if c == '"' or c == '\\':
            out.append('\\' + c)
        elif c == '\n':
            out.append('\\n')
        elif c == '\t':
            out.append('\\t')
        elif ord(c) < 32 or ord(c) == 127:
            out.append('\\%03o' % ord(c))
        else:
            out.append(c)
    return '"' + ''.join(out) + '"'


def cpp_lit(vt, v):
    if vt in INTS:
        if vt == 'int':
            return str(v) if v > -2**31 else '(-2147483647-1)'
        if vt == 'std::uint64_t':
            return 'std::uint64_t{%dULL}' % v
        if vt == 'long long':
            return '(long long)%dLL' % v if v > -2**63 else '(-9223372036854775807LL-1)'
        return '(%s)%d' % (vt, v)
    if vt == 'double':
        return repr(float(v))
    if vt == 'bool':
        return 'true' if v else 'false'
    if vt == 'std::string':
        return 'std::string{%s}' % cpp_str(v)
    if vt == 'std::string_view':
        return 'std::string_view{%s}' % cpp_str(v)
    if vt == 'std::filesystem::path':
        return 'std::filesystem::path{%s}' % cpp_str(v)
    if vt.startswith('std::optional<'):
        return '%s{%s}' % (vt, '' if v is None else cpp_lit(elem(vt), v))
    if vt == 'Pt':
        return 'Pt{%d,%d}' % v
    if vt == 'Col':
        return 'static_cast<Col>(%d)' % v
    if is_vec(vt):
        return '%s{%s}' % (vt, ', '.join(cpp_lit(elem(vt), e) for e in v))
    raise KeyError(vt)


def default_init(vt):
    if vt in INTS:
        return 0
    if vt == 'double':
        return 0.0
    if vt == 'bool':
        return False
    if vt in ('std::string', 'std::string_view', 'std::filesystem::path'):
        return ''
    if vt.startswith('std::optional<'):
        return None
    if vt == 'Pt':
        return (0, 0)
    if vt == 'Col':
        return 0
    if is_vec(vt):
        return []
    if vt.startswith('var<'):
        ts = split_types(vt[4:-1])
        return ('v', 0, default_init(ts[0]))
    raise KeyError(vt)


def split_types(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def hexs(s):
    b = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')
    return 's' + b.hex()


def ser(vt, v):
    """Serialise a value exactly as rt.hpp does"""
    if vt in INTS or vt == 'Col':
        return str(v)
    if vt == 'double':
        return '%.17g' % v
    if vt == 'bool':
        return 'true' if v else 'false'
    if vt in ('std::string', 'std::string_view', 'std::filesystem::path'):
        return hexs(v)
    if vt.startswith('std::optional<'):
        return 'null' if v is None else 'o' + ser(elem(vt), v)
    if vt == 'Pt':
        return 'p%d;%d' % v
    if is_vec(vt):
        return '[' + ','.join(ser(elem(vt), e) for e in v) + ']'
    if vt.startswith('var<'):
        ts = split_types(vt[4:-1])
        return 'v%d(%s)' % (v[1], ser(ts[v[1]], v[2]))
    raise KeyError(vt)


def value_type(n):
    """C++ value type a node contributes to its mode's router (None: none)"""
    if n.k == 'flag':
        return 'bool'
    if n.k in ('cflag', 'arg', 'marg', 'pos'):
        return n.vt
    if n.k == 'fwd':
        return 'std::vector<std::string_view>'
    if n.k == 'oneof':
        ts = [value_type(c) for c in n.ch if not c.no_result()]
        return ts[0] if len(ts) == 1 else 'var<' + ','.join(ts) + '>'
    if n.k == 'agroup':
        return [value_type(c) for c in n.ch if not c.no_result()][0]
    return None


def router_children(mode):
    return [c for c in mode.ch if not c.no_result()]


def twin(t, r, value):
    """a tree of the same type as t with other run-time values; links the nodes of t to those of the twin.
    value(r, vt, lo, hi) generates"""
    import copy
    t2 = copy.deepcopy(t)
    inside = lambda x, v: (x.minv is None or v >= x.minv) and (x.maxv is None or v <= x.maxv)

    def go(a, b):
        a.alt = b
        if b.rid is not None:
            b.rid += 1000
        if b.rtb and value_type(b) != 'Col' and r.random() < .7:
            x = [v if v is None else v + d for v, d in ((b.minv, r.choice([-1, 0, 1])), (b.maxv, r.choice([1, 2, 3])))]
            lo, hi = INTS.get(value_type(b), (-1e6, 1e6))
            if b.minv is not None and b.minv >= 0:
                lo = 0
            if all(v is None or lo <= v <= min(hi, 2 ** 31 - 2) for v in x):
                b.minv, b.maxv = x
        if b.dflt is not None:
            vt = value_type(b)
            for _ in range(8):
                if vt.startswith('var<'):
                    ch = b.ch[b.dflt[1]]
                    v = value(r, split_types(vt[4:-1])[b.dflt[1]], ch.minv, ch.maxv)
                    ok = inside(ch, v) if ch.minv is not None or ch.maxv is not None else True
                    new = (b.dflt[0], b.dflt[1], v)
                else:
                    v = value(r, vt, b.minv, b.maxv) if b.k != 'cflag' else r.choice([1, 2, 3, 7] if vt != 'Col' else [0, 1, 2])
                    ok = inside(b, v) if b.minv is not None or b.maxv is not None else True
                    new = [v]
                if ok:
                    b.dflt = new
                    break
            else:
                b.minv, b.maxv, b.dflt = a.minv, a.maxv, a.dflt
        if b.enreq_d is not None:
            b.enreq_d = [value(r, value_type(b), b.minv, b.maxv)]
        for x, y in zip(a.ch, b.ch):
            go(x, y)
    go(t, t2)
    return t2


# ---------------------------------------------------------------- emission
class Emit:
    def __init__(self, cpp17=False):
        self.cpp17 = cpp17
        self.n = 0

    def array(self, s):
        """now and then, the string declared from an array of characters rather than a literal"""
        self.n += 1
        if self.cpp17 or not s or self.n % 5:
            return None
        return 'ar::str<std::array{%s}>' % ', '.join("'\\x%02x'" % b for b in s.encode())

    def lit(self, s):
        """a compile-time string object"""
        a = self.array(s)
        if a:
            return a + '{}'
        return ('S_(%s){}' if self.cpp17 else '%s_S') % cpp_str(s)

    def ty(self, s):
        a = self.array(s)
        if a:
            return a
        return ('S_(%s)' if self.cpp17 else 'ar::str<%s>') % cpp_str(s)

    def namepol(self, pol, s, alt):
        if alt % 2 and pol in ('long_name', 'short_name', 'none_name', 'display_name', 'description', 'error_name'):
            if self.cpp17:
                return 'arp::%s_t{%s}' % (pol, self.lit(s))
            if pol == 'short_name':
                if len(s) == 1 and ord(s) < 128:
                    return "arp::short_name<'%s'>" % s
                return 'arp::short_name_utf8<%s>' % self.ty(s)
            return 'arp::%s<%s>' % (pol, self.ty(s))
        return 'arp::%s_t{%s}' % (pol, self.lit(s))

    @staticmethod
    def pick(n, vt, v, attr):
        """the literal of v, or a choice at run time between it and that of the twin of the node"""
        a = cpp_lit(vt, v)
        if n.alt is None:
            return a
        w = getattr(n.alt, attr)
        if isinstance(w, (list, tuple)):
            w = w[-1]
        b = cpp_lit(vt, w)
        return a if a == b else '((en >> 31) ? %s : %s)' % (b, a)

    def sep(self, s):
        if len(s) == 1 and ord(s) < 128:
            return "arp::value_separator<'%s'>" % s
        return 'arp::value_separator_utf8<%s>' % self.ty(s)

    def policies(self, n):
        out = []
        names = []
        fam = {'mode': ('none', 'none_name'), 'fwd': ('none', 'none_name'), 'pos': ('disp', 'display_name')}
        if n.k in fam:
            a, pol = fam[n.k]
            nm = getattr(n, a)
            if n.bare and nm is not None:
                names.append(self.lit(nm))
                if n.desc is not None:
                    names.append(self.lit(n.desc))
            else:
                if nm is not None:
                    names.append(self.namepol(pol, nm, n.perm))
                if n.desc is not None:
                    names.append(self.namepol('description', n.desc, n.perm >> 1))
        elif n.k in ('oneof', 'agroup'):
            if n.disp is not None:
                names.append(self.namepol('display_name', n.disp, n.perm))
        else:
            if n.bare and n.long is not None:
                names.append(self.lit(n.long))
                if n.short is not None:
                    if n.perm & 1:
                        names.insert(0, self.lit(n.short))
                    else:
                        names.append(self.lit(n.short))
                if n.desc is not None:
                    names.append(self.lit(n.desc))
            else:
                if n.long is not None:
                    names.append(self.namepol('long_name', n.long, n.perm))
                if n.short is not None:
                    names.append(self.namepol('short_name', n.short, n.perm >> 1))
                if n.desc is not None:
                    names.append(self.namepol('description', n.desc, n.perm >> 2))
        if n.err is not None:
            names.append(self.namepol('error_name', n.err, n.perm))
        if n.sep:
            out.append(self.sep(n.sep))
        if n.req:
            out.append('arp::required')
        if n.dflt is not None:
            vt = value_type(n)
            if vt.startswith('var<'):
                t = split_types(vt[4:-1])[n.dflt[1]]
                out.append('arp::default_value{%s}' % self.pick(n, t, n.dflt[2], 'dflt'))
            else:
                out.append('arp::default_value<%s>{%s}' % (vt, self.pick(n, vt, n.dflt[0], 'dflt')))
        if n.minv is not None or n.maxv is not None:
            vt = value_type(n)
            if n.bint and vt not in ('Col',) and all(x is None or -2**31 < x < 2**31 and (x >= 0 or INTS.get(vt, (-1,))[0] < 0)
                                                     for x in (n.minv, n.maxv)):
                vt = 'int'               # bounds of another type than the value
            lo = None if n.minv is None else self.pick(n, vt, n.minv, 'minv')
            hi = None if n.maxv is None else self.pick(n, vt, n.maxv, 'maxv')
            if n.rtb:
                if lo and hi:
                    out.append('arp::min_max_value(%s, %s)' % (lo, hi))
                elif lo:
                    out.append('arp::min_value(%s)' % lo)
                else:
                    out.append('arp::max_value(%s)' % hi)
            else:
                if lo and hi:
                    out.append('arp::min_max_value<%s, %s>()' % (lo, hi))
                elif lo:
                    out.append('arp::min_value<%s>()' % lo)
                else:
                    out.append('arp::max_value<%s>()' % hi)
        if n.k in ('marg', 'pos', 'fwd') and (n.mnc is not None or n.mxc is not None):
            mn, mx = n.mnc, n.mxc
            if mn is not None and mn == mx:
                out.append('arp::fixed_count<%d>' % mn)
            elif mx is None:
                out.append('arp::min_count<%d>' % mn)
            elif mn is None:
                out.append('arp::max_count<%d>' % mx)
            else:
                out.append('arp::min_max_count<%d, %d>' % (mn, mx))
        if n.marker:
            out.append('arp::token_end_marker_t{%s}' % self.lit(n.marker))
        for pol, refs in (('alias', n.alias), ('dependent', n.deps)):
            if refs:
                out.append('arp::%s(%s)' % (pol, ', '.join(
                    'arp::%s_name_t{%s}' % ('long' if kind == 'L' else 'short', self.lit(nm))
                    for kind, nm in refs)))
        if n.en is not None:
            if n.enreq:
                vt = value_type(n)
                out.append('arp::runtime_enable_required<%s>{bool((en>>%d)&1)%s}' % (
                    cpp_type(vt), n.en, '' if n.enreq_d is None else ', ' + self.pick(n, vt, n.enreq_d[0], 'enreq_d')))
            else:
                out.append('arp::runtime_enable{bool((en>>%d)&1)}' % n.en)
        if n.cust:
            out.append('arp::custom_parser<%s>{%s}' % (n.vt, n.cust))
        if n.extra:
            out += n.extra
        r = random.Random(n.perm)
        r.shuffle(out)
        if not n.bare:
            allp = names + out
            if n.perm & 8:
                r.shuffle(allp)
            return allp
        return names + out

    def node(self, n):
        pol = self.policies(n)
        kids = [self.node(c) for c in n.ch]
        if n.lists:
            for a, b in sorted(n.lists, reverse=True):
                kids[a:b] = ['ar::list(%s)' % ', '.join(kids[a:b])]
        if n.k == 'root':
            pol = ['arp::validation::default_validator'] + (pol or [])
            allp = pol + kids if not (n.perm & 1) else kids + pol
            return 'ar::root(%s)' % ',\n  '.join(allp)
        if n.rid is not None:
            if n.k == 'mode':
                ts = [cpp_param(c) for c in router_children(n)]
                lam = '[](%s){ rt::call(%d%s); }' % (
                    ', '.join('%s a%d' % (t, i) for i, t in enumerate(ts)), n.rid,
                    ''.join(', a%d' % i for i in range(len(ts))))
            elif n.k == 'help':
                lam = '[](ar::ostringstream s){ rt::call(%d, s.str()); }' % n.rid
            else:
                lam = '[](%s a0){ rt::call(%d, a0); }' % (cpp_param(n), n.rid)
            if n.alt is not None:
                # what the router captured tells the twins apart
                lam = lam.replace('[](', '[id = en >> 31 ? %d : %d](' % (n.alt.rid, n.rid), 1).replace('rt::call(%d' % n.rid, 'rt::call(id', 1)
            router = 'arp::router{%s}' % lam
            pol = pol + [router] if not (n.perm & 4 and not n.bare) else [router] + pol
        if n.k == 'help':
            ex = ['arp::flatten_help'] if n.flat else []
            for k, v in sorted((n.pre or {}).items()):
                ex.append('arp::program_%s_t{%s}' % (k, self.lit(v)))
            if n.fmt:
                ind, off, col = n.fmt
                c = lambda x: 'ar::traits::integral_constant<std::size_t{%d}>' % x
                ex.append('arp::%s_help_formatter%s' % (
                    'colour' if col else 'default', '' if (ind, off) == (4, 8) else '_t<%s, %s>{}' % (c(ind), c(off))))
            random.Random(n.perm).shuffle(ex)
            pol = pol + ex if n.bare or n.perm & 16 else ex + pol
        fn = {'mode': 'ar::mode', 'flag': 'ar::flag', 'cflag': 'ar::counting_flag<%s>' % (n.vt),
              'arg': 'ar::arg<%s>' % n.vt, 'marg': 'ar::multi_arg<%s>' % n.vt,
              'pos': 'ar::positional_arg<%s>' % n.vt, 'fwd': 'ar::forwarding_arg',
              'oneof': 'ard::one_of', 'agroup': 'ard::alias_group', 'help': 'ar::help'}[n.k]
        return '%s(%s)' % (fn, ',\n  '.join(pol + kids))

    def tu(self, root, prelude=''):
        return '''%s
static auto make([[maybe_unused]] unsigned en) {
  [[maybe_unused]] constexpr int z = 0;
  return %s;
}
IRoot* make_root(unsigned en) { return new Impl<decltype(make(en))>{make(en)}; }
''' % (prelude, self.node(root))
