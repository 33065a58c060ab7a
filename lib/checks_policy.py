"""C28: user-defined policies take part in every parsing phase."""
import os
import time

from engine import dec, shrink_argv
from srv import Build, CompileError, batch, cmdF

CONV = ['11', '12', '13', '14']          # tokens replaced by policies
PRE = '''
namespace pl {
inline std::string text(const ar::parsing::token_type& t)
{
    return std::string{t.prefix == ar::parsing::prefix_type::long_ ? "--" : t.prefix == ar::parsing::prefix_type::short_ ? "-" : ""} +
           std::string{t.name};
}
template <typename Owner>
std::string name()
{
    if constexpr (ar::traits::has_long_name_method_v<Owner>) {
        return std::string{Owner::long_name()};
    } else if constexpr (ar::traits::has_display_name_method_v<Owner>) {
        return std::string{Owner::display_name()};
    } else if constexpr (ar::traits::has_none_name_method_v<Owner>) {
        return std::string{Owner::none_name()};
    } else {
        return "?";
    }
}
template <typename... Ps>
struct owner { static std::string get() { return "none"; } };
template <typename P, typename... Ps>
struct owner<P, Ps...> { static std::string get() { return name<P>() + "^" + std::to_string(sizeof...(Ps)); } };
template <typename... Ps>
void saw(int id, ar::parsing::dynamic_token_adapter& t)
{
    rt::log += "~P" + std::to_string(id) + "@" + rt::hex(owner<Ps...>::get()) + ":" + std::to_string(t.processed().size());
    for (auto it = t.begin(); it != t.end(); ++it) {
        rt::log += "," + rt::hex(text(*it));
    }
}
inline bool any(ar::parsing::dynamic_token_adapter& t, std::string_view s)
{
    for (auto it = t.begin(); it != t.end(); ++it) {
        if (text(*it) == s) {
            return true;
        }
    }
    return false;
}
using act = ar::parsing::pre_parse_action;
using res = ar::parsing::pre_parse_result;
inline res fail(std::string_view s)
{
    return ar::multi_lang_exception{ar::error_code::failed_to_parse, ar::parsing::token_type{ar::parsing::prefix_type::none, s}};
}
template <std::size_t J, typename Node, typename Mode, typename... Ps>
void sub(ar::parsing::parse_target& target, const char* value, const Node&, const Mode& mode, const Ps&... ps)
{
    target.add_sub_target({ar::vector<ar::parsing::token_type>{{ar::parsing::prefix_type::none, value}},
                           std::get<J>(mode.children()), mode, ps...});
}
template <typename V>
bool is(const V& v, int n, const char* s)
{
    if constexpr (std::is_integral_v<V>) {
        return int(v) == n;
    } else if constexpr (std::is_convertible_v<V, std::string_view>) {
        return v == s;
    } else {
        for (const auto& e : v) {
            if (is(e, n, s)) {
                return true;
            }
        }
        return false;
    }
}
}
'''


class Pol:
    def __init__(self, id, phase, act=None, prio=None, arg=None):
        self.id, self.phase, self.act, self.prio, self.arg = id, phase, act, prio, arg

    def key(self):
        return self.prio or 0

    def cpp(self, vt, pos, node=None, mode=None):
        n = 'P%d' % self.id
        if self.phase == 'pre':
            g = self.arg
            body = ''
            if self.act == 'skip':
                body = 'if (pl::any(t, "%s")) { return pl::act::skip_node; }' % g
            elif self.act == 'boom':
                body = 'if (pl::any(t, "%s")) { return pl::fail("%s"); }' % (g, g)
            elif self.act == 'repl':
                body = ('if (t.size() > K && pl::text(*(t.begin() + K)) == "%s") { (t.begin() + K).set({ar::parsing::prefix_type::none, "%s"}); }' % g
                        ).replace('K', '0' if pos else '1')
            elif self.act == 'ins':
                body = ('if (t.size() > 1 && pl::text(*(t.begin() + 1)) == "%s") { t.insert(t.begin() + 1, '
                        '{ar::parsing::prefix_type::none, "%s"}); }' % g)
            elif self.act == 'eat':
                body = 'if (t.size() > 1 && pl::text(*(t.begin() + 1)) == "%s") { t.erase(t.begin() + 1); }' % g
            elif self.act == 'sub':
                body = ('if (t.size() > 1 && pl::text(*t.begin()) == "%s" && pl::text(*(t.begin() + 1)) == "%s") { '
                        't.transfer(t.begin() + 1); pl::sub<%d>(target, "%s", ps...); '
                        't.processed().erase(t.processed().begin(), t.processed().begin() + 2); '
                        'return pl::act::skip_node_but_use_sub_targets; }'
                        % (node.label(), g[0], [c.name for c in mode.ch].index(g[1]), g[2]))
            inner = '''
    template <typename T, typename... Ps>
    pl::res pre_parse_phase(ar::parsing::dynamic_token_adapter& t, ar::utility::compile_time_optional<T>,
                            ar::parsing::parse_target& target, const Ps&... ps) const
    {
        pl::saw<Ps...>(%d, t);
        %s
        return pl::act::valid_node;
    }''' % (self.id, body)
            if self.prio is not None:
                inner = '\n    constexpr static auto priority = std::size_t{%dull};' % self.prio + inner
        elif self.phase == 'val':
            inner = '''
    template <typename V, typename... Ps>
    void validation_phase(const V& v, const Ps&...) const
    {
        rt::log += "~V%d@" + rt::hex(pl::owner<Ps...>::get()) + ":" + rt::ser(v);
        if (pl::is(v, %s, "%s")) {
            throw ar::parse_exception{"refused by %d"};
        }
    }''' % (self.id, self.arg, self.arg, self.id)
            if self.prio is not None:
                inner = '\n    constexpr static auto priority = std::size_t{%dull};' % self.prio + inner
        elif self.phase == 'parse':
            e = vt[12:-1] if vt.startswith('std::vector<') else vt
            ret = 'int(s.size()) * 100 + %d' % (self.id % 90) if e == 'int' else '"<%d:" + std::string{s} + ">"' % self.id
            inner = '''
    template <typename V, typename... Ps>
    %s parse_phase(std::string_view s, const Ps&...) const
    {
        if (s == "77") {
            throw ar::parse_exception{"unparsable %d"};
        }
        return %s;
    }''' % (e, self.id, ret)
        elif self.phase == 'miss':
            inner = '''
    template <typename V, typename... Ps>
    V missing_phase(const Ps&...) const
    {
        rt::log += "~M%d@" + rt::hex(pl::owner<Ps...>::get());
        return V%s;
    }''' % (self.id, self.arg[0])
        elif self.phase == 'route':
            inner = '''
    template <typename... A>
    void routing_phase(A&&... a) const { rt::call(%d, a...); }''' % self.arg
        else:
            inner = '''
    [[nodiscard]] constexpr static std::string_view %s() noexcept { return "%s"; }''' % (self.phase, self.arg)
        # the rules compare policies as specialisations of class templates
        return 'template <typename = void> struct %s {%s\n};\ntemplate <> struct arp::is_policy<%s<>> : std::true_type {};\n' % (n, inner, n)


class Nd:
    """k: flag arg marg pos mode; name; vt; cnt; sep; pols; ch; rid; own: name given by a policy of the user's"""

    def __init__(self, **kw):
        self.k = self.name = self.vt = self.sep = None
        self.cnt = (0, 0)
        self.pols, self.ch, self.rid, self.routing, self.own = [], [], None, None, None
        self.__dict__.update(kw)

    def clone(self):
        n = Nd(**self.__dict__)
        n.pols = list(self.pols)
        n.ch = [c.clone() for c in self.ch]
        return n

    def walk(self):
        yield self
        for c in self.ch:
            yield from c.walk()

    def label(self):
        return self.name if self.k == 'mode' else '--' + self.name

    @property
    def named(self):
        return self.k in ('flag', 'arg', 'marg') or (self.k == 'mode' and self.name is not None)

    def cpp(self):
        if self.k == 'root':
            return 'ar::root(arp::validation::default_validator, %s)' % ', '.join(c.cpp() for c in self.ch)
        a = []
        if self.own:
            a.append('P%d<>{}' % self.own.id)
        elif self.name is not None:
            a.append('"%s"_S' % self.name)
        if self.sep:
            a.append("arp::value_separator<'%s'>" % self.sep)
        if self.k in ('marg', 'pos'):
            lo, hi = self.cnt
            a.append('arp::min_max_count<%d, %d>' % (lo, hi) if hi else 'arp::min_count<%d>' % lo)
        # policies stand between the others, in the order of self.pols
        for i, p in enumerate(self.pols):
            a.insert(self.at(i, len(a)), 'P%d<>{}' % p.id)
        if self.rid is not None:
            if self.routing:
                a.append('P%d<>{}' % self.routing.id)
            else:
                a.append('arp::router{[](auto... a) { rt::call(%d, a...); }}' % self.rid)
        a += [c.cpp() for c in self.ch]
        f = {'flag': 'ar::flag', 'arg': 'ar::arg<%s>', 'marg': 'ar::multi_arg<%s>', 'pos': 'ar::positional_arg<%s>', 'mode': 'ar::mode'}[self.k]
        return (f % self.vt if '%s' in f else f) + '(' + ', '.join(a) + ')'

    def at(self, i, n):
        return (i * 7 + len(self.pols)) % (n + 1)


def all_pols(n):
    for x in n.walk():
        yield from ((p, x) for p in x.pols)
        if x.own:
            yield x.own, x
        if x.routing:
            yield x.routing, x


def emit(root):
    up = {id(c): n for n in root.walk() for c in n.ch}
    return PRE + ''.join(p.cpp(x.vt or '', x.k == 'pos', x, up.get(id(x))) for p, x in all_pols(root)) + '''
static auto make() { return %s; }
IRoot* make_root(unsigned) { return new Impl<decltype(make())>{make()}; }
''' % root.cpp()


# ---------------------------------------------------------------- generator
NAMES = ['alpha', 'beta', 'gamma', 'delta', 'eps', 'zeta', 'eta', 'theta']
FIXED = {750, 760, 900, 950, 1000, 0, 100, 450, 500}


class Gen:
    def __init__(self, r):
        self.r, self.nid = r, 0

    def pol(self, phase, **kw):
        self.nid += 1
        return Pol(self.nid, phase, **kw)

    def pres(self, node, most=3):
        r = self.r
        used = set(FIXED)
        noprio = False
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 2, 3][:most + 3])):
            act = r.choice(['trace', 'trace', 'skip', 'boom', 'repl', 'repl', 'repl', 'ins', 'eat'])
            if node.k == 'mode' and act in ('repl', 'ins', 'eat'):
                act = 'trace'
            while True:
                pr = r.choice([r.randint(1, 1100), r.choice([749, 751, 949, 951, 899, 901, 999, 1001, 1, 2]), r.choice([749, 751, 949, 951, 1, 2, 255, 256, 65535, 65536, 65537, 66000, 2 ** 32, 2 ** 32 + 1, 2 ** 63])])
                if pr not in used:
                    break
            if not noprio and r.random() < .15:
                pr, noprio = None, True
            used.add(pr)
            if act in ('ins', 'eat') and (not node.named or pr is None or (act == 'eat' and pr < 750) or (node.sep and pr > 950)):
                act = 'trace'
            if node.k == 'flag' and act in ('repl', 'ins', 'eat'):
                act = 'trace'
            arg = None
            if act in ('skip', 'boom'):
                # sometimes reacts to what another policy produces
                arg = r.choice(['s1', 's2', '12', '13', '31'])
            elif act == 'repl':
                a, b = r.sample(CONV, 2)
                arg = (a, b)
            elif act == 'ins':
                arg = (r.choice(['21', '12', '14']), r.choice(['31', '11', '5']))
            elif act == 'eat':
                arg = r.choice(['41', '11', '31'])
            out.append(self.pol('pre', act=act, prio=pr, arg=arg))
        return out

    def leaf(self, name, k=None):
        r = self.r
        k = k or r.choice(['flag', 'arg', 'arg', 'arg', 'marg'])
        n = Nd(k=k, name=name)
        if k == 'arg':
            n.vt = r.choice(['int', 'std::string'])
            n.cnt = (1, 1)
            if r.random() < .3:
                n.sep = '='
        elif k == 'marg':
            n.vt = r.choice(['std::vector<int>', 'std::vector<std::string>'])
            lo = r.choice([1, 2])
            n.cnt = (lo, r.choice([2, 3, 0]))
        elif k == 'flag':
            n.vt = 'bool'
        elif k == 'pos':
            if r.random() < .5:
                n.vt, n.cnt = r.choice(['int', 'std::string']), (1, 1)
            else:
                n.vt, n.cnt = r.choice(['std::vector<int>', 'std::vector<std::string>']), (r.choice([0, 1]), r.choice([2, 0]))
        n.pols = self.pres(n)
        if k != 'flag':
            prios = r.sample([None, None] + r.sample(list(range(1, 1001, 50)) + [65536, 65537, 2 ** 32, 2 ** 32 + 1], 4), 4)
            prios = [q for i, q in enumerate(prios) if q is not None or None not in prios[:i]]
            for q in prios[:r.choice([0, 0, 1, 2, 2, 3])]:
                n.pols.append(self.pol('val', prio=q, arg=r.choice(['12', '13', '31', '5', '205'])))
            if r.random() < .25:
                n.pols.append(self.pol('parse'))
            if r.random() < .35:
                e = r.choice(['12', '5', '9'])
                n.pols.append(self.pol('miss', arg=('{"%s"}' % e if 'string' in n.vt else '{%s}' % e, e)))
                if n.vt.startswith('std::vector<std::string>'):
                    n.pols[-1].arg = ('(1, "%s")' % e, e)
        r.shuffle(n.pols)
        if r.random() < .2:
            n.own = self.pol('display_name' if k == 'pos' else 'long_name', arg=name)
        return n

    def tree(self):
        r = self.r
        names = r.sample(NAMES, len(NAMES))
        root = Nd(k='root')
        kinds = r.choice([['anon'], ['anon'], ['named', 'named'], ['named'], ['top', 'anon'], ['top', 'top', 'named']])
        rid = 0
        for k in kinds:
            rid += 1
            if k == 'top':
                n = self.leaf(names.pop(), r.choice(['arg', 'arg', 'flag']))
                n.pols = [p for p in n.pols if p.phase != 'miss']
            else:
                n = Nd(k='mode')
                if k == 'named':
                    n.name = 'mode%d' % rid
                    n.pols = self.pres(n)
                for _ in range(r.choice([1, 2, 2, 3])):
                    if names:
                        n.ch.append(self.leaf(names.pop()))
                if r.random() < .45:
                    n.ch.append(self.leaf('PP', 'pos'))
                # only the last child may take a varying number of tokens
                for c in n.ch[:-1]:
                    if c.k == 'marg':
                        c.cnt = (max(2, c.cnt[0]),) * 2
                self.subs(n)
            n.rid = rid
            if r.random() < .3:
                n.routing = self.pol('route', arg=rid)
            root.ch.append(n)
        return root

    def subs(self, m):
        """policies that parse another node's value in place of their own"""
        r = self.r
        for n in m.ch:
            others = [c for c in m.ch if c is not n and c.k in ('arg', 'marg', 'pos')]
            if n.k != 'arg' or not others or r.random() > .4:
                continue
            taken = FIXED | {p.key() for p in n.pols if p.phase == 'pre'}
            pr = r.choice([x for x in range(1, 740) if x not in taken])
            n.pols.append(self.pol('pre', act='sub', prio=pr, arg=(r.choice(CONV + ['21', '5']), r.choice(others).name, r.choice(['11', '12', '31', '77']))))
            for p in n.pols:
                # what comes after it finds no label any more
                if p.phase == 'pre' and p.key() < pr and p.act in ('repl', 'ins', 'eat'):
                    p.act, p.arg = r.choice([('trace', None), ('skip', r.choice(['31', '12', '--' + others[0].name])), ('boom', r.choice(['31', '12', '--' + others[0].name]))])
            r.shuffle(n.pols)

    def line(self, root):
        r = self.r
        top = r.choice(root.ch)
        pool = CONV * 2 + ['21', '41', '31', '5', '205', '77']
        # what the tree's policies react to
        for p, _ in all_pols(root):
            if p.phase == 'pre' and p.arg:
                pool += [p.arg[0] if isinstance(p.arg, tuple) else p.arg] * (4 if p.act == 'sub' else 2)
        out = []
        nodes = [top]
        if top.k == 'mode':
            if top.name:
                out.append(top.name)
            nodes = [c for c in top.ch if r.random() < .75]
            pos = [c for c in nodes if c.k == 'pos']
            nodes = [c for c in nodes if c.k != 'pos']
            r.shuffle(nodes)
            nodes += pos
        for n in nodes:
            def v():
                return r.choice(pool + (['word', 'x'] if 'string' in n.vt else []))
            if n.k == 'flag':
                out.append(n.label())
            elif n.k == 'arg':
                out += [n.label() + '=' + v()] if n.sep else [n.label(), v()]
            else:
                lo, hi = n.cnt
                if n.named:
                    out.append(n.label())
                out += [v() for _ in range(r.randint(lo, hi or lo + 2))]
        if r.random() < .25:
            i = r.randint(0, len(out))
            k = r.random()
            if k < .35:
                out.insert(i, r.choice(pool))
            elif k < .7 and out:
                del out[min(i, len(out) - 1)]
            elif nodes:
                out.insert(i, r.choice(nodes).label() if r.random() < .5 or not out else r.choice(out))
        return out


# ---------------------------------------------------------------- model
class Bad(Exception):
    """kind: the text up to (not including) the tokens; own: raised by a user's policy, so the trace is judged too"""

    def __init__(self, text, own=False):
        Exception.__init__(self, text)
        self.text, self.own = text, own


class Sim:
    def __init__(self, root):
        self.root = root
        self.pre = []          # traces of pre-parse policies called with a token addressed to their node
        self.val = {}          # policy id -> values
        self.calls = []
        self.marks = set()

    def addressed(self, n, t):
        return t == n.label() or bool(n.sep and t.startswith(n.label() + n.sep))

    def pre_parse(self, n, args, depth, seen=False):
        """-> (tokens without the label, remaining args) or None"""
        both, b = list(args), 0        # all tokens, and how many of them are processed
        pols = [(p.key(), p) for p in n.pols if p.phase == 'pre']
        if n.k != 'mode':
            pols.append((750, 'count'))
        if n.sep:
            pols.append((950, 'sep'))
        pols.sort(key=lambda x: -x[0])
        err = None
        subs = []
        ran = 0
        for _, p in pols:
            if p == 'sep':
                if not both:
                    continue
                f = both[0]
                i = f.find(n.sep)
                if i < 0:
                    if f == n.label():
                        err = Bad('Expected a value separator: ')
                        break
                    return None
                if not f[i + 1:]:
                    return None
                both[:1] = [f[:i], f[i + 1:]]
                b = max(b, 1) + 1
            elif p == 'count':
                off = 1 if n.named else 0
                lo, hi = n.cnt
                if len(both) < lo + off:
                    err = Bad('Minimum count not reached: ')
                    break
                b = max(b, len(both) if hi == 0 and n.k != 'flag' else min(hi + off, len(both)))
            else:
                if n.named and both and self.addressed(n, both[0]):
                    self.pre.append((p.id, n.name + '^%d' % depth, b, list(both)))
                    ran += 1
                    if ran > 1:
                        self.marks.add('several')
                    if p.key() > 750:
                        self.marks.add('before-count')
                    if n.sep and p.key() < 950:
                        self.marks.add('after-separator')
                if p.act == 'sub' and len(both) > 1 and both[0] == n.label() and both[1] == p.arg[0]:
                    self.marks.add('sub-target')
                    subs.append((p.arg[1], [p.arg[2]]))
                    both, b = both[2:], max(b - 2, 0)
                    continue
                if subs:
                    self.marks.add('after-sub-target')
                if p.act == 'skip' and p.arg in both:
                    self.marks.add('skip')
                    return None
                if p.act == 'boom' and p.arg in both:
                    err = Bad('Failed to parse: ' + p.arg, True)
                    break
                k = 1 if n.named else 0
                if p.act == 'repl' and len(both) > k and both[k] == p.arg[0]:
                    self.marks.add('edit')
                    both[k] = p.arg[1]
                    b = max(b, k + 1)
                if p.act == 'ins' and len(both) > 1 and both[1] == p.arg[0]:
                    both.insert(1, p.arg[1])
                    b = max(b, 1) + 1
                    self.marks.add('insert')
                if p.act == 'eat' and len(both) > 1 and both[1] == p.arg:
                    del both[1]
                    b -= b > 1
                    self.marks.add('erase')
        done, rest = both[:b], both[b:]
        if n.named and not subs:
            if not done:
                if not rest:
                    return None
                done, rest = rest[:1], rest[1:]
            if done[0] != n.label():
                return None
        if seen:
            if n.named:
                raise Bad('Argument has already been set: ')
            return None
        if err:
            if err.own:
                self.marks.add('boom')
            raise err
        return (done[1:] if n.named else done), rest, subs

    def conv(self, n, t):
        e = n.vt[12:-1] if n.vt.startswith('std::vector<') else n.vt
        for p in n.pols:
            if p.phase == 'parse':
                self.marks.add('parse')
                if t == '77':
                    raise Bad('unparsable %d' % p.id, True)
                return len(t) * 100 + p.id % 90 if e == 'int' else '<%d:%s>' % (p.id, t)
        if e == 'int':
            try:
                if t.strip() != t or '_' in t:
                    raise ValueError
                return int(t)
            except ValueError:
                raise Bad('Failed to parse: ')
        return t

    def validate(self, n, v):
        pols = sorted((p for p in n.pols if p.phase == 'val'), key=lambda p: -p.key())
        for i, p in enumerate(pols):
            self.marks.add('validate')
            self.val.setdefault(p.id, set()).add(ser(v))
            if any(str(x) == p.arg for x in (v if isinstance(v, list) else [v])):
                self.marks.add('refused')
                if i or len(pols) > 1:
                    self.marks.add('refused-by-one-of-several')
                raise Bad('refused by %d' % p.id, True)

    def parse(self, n, toks):
        if n.k == 'flag':
            return True
        if n.vt.startswith('std::vector<'):
            v = [self.conv(n, t) for t in toks]
        elif toks:
            v = self.conv(n, toks[0])
        else:
            v = 0 if n.vt == 'int' else ''
        self.validate(n, v)
        return v

    def missing(self, n):
        if n.k == 'flag':
            return False
        v = [] if n.vt.startswith('std::vector<') else 0 if n.vt == 'int' else ''
        for p in n.pols:
            if p.phase == 'miss':
                self.marks.add('missing')
                e = p.arg[1] if 'string' in n.vt else int(p.arg[1])
                v = [e] if isinstance(v, list) else e
        self.validate(n, v)
        return v

    def mode(self, m, args):
        """-> thunk or None"""
        depth = 1
        if m.name is not None:
            x = self.pre_parse(m, args, 1)
            if x is None:
                return None
            args = x[1]
            depth = 2
        targets = []
        used = set()
        while args:
            hit = None
            for c in m.ch:
                x = self.pre_parse(c, args, 2, c in used)
                if x is not None:
                    hit = c
                    break
            if hit is None:
                if len(used) == len(m.ch):
                    raise Bad('Unhandled arguments: ')
                raise Bad('Unknown argument: ')
            used.add(hit)
            if x[2]:
                targets += [([c for c in m.ch if c.name == k][0], v) for k, v in x[2]]
            else:
                targets.append((hit, x[0]))
            args = x[1]

        def go():
            vals = {}
            for n, toks in targets:
                v = self.parse(n, toks)
                if n in vals:
                    raise Bad('Argument has already been set: ')
                vals[n] = v
            for n in m.ch:
                if n not in vals:
                    vals[n] = self.missing(n)
            self.calls.append('r%d(%s)' % (m.rid, ' '.join(ser(vals[n]) for n in m.ch)))
        return go

    def run(self, argv):
        """-> ('OK', calls) or ('EX', text, judge trace)"""
        try:
            for c in self.root.ch:
                if c.k == 'mode':
                    go = self.mode(c, list(argv))
                    if go:
                        go()
                        return ('OK',)
                else:
                    x = self.pre_parse(c, list(argv), 1)
                    if x is not None:
                        if x[1]:
                            raise Bad('Unhandled arguments: ')
                        v = self.parse(c, x[0])
                        self.calls.append('r%d(%s)' % (c.rid, ser(v)))
                        return ('OK',)
            raise Bad('No arguments passed' if not argv or argv[0] == '' else 'Unknown argument: ')
        except Bad as e:
            return 'EX', e.text, e.own


def ser(v):
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, list):
        return '[' + ','.join(ser(x) for x in v) + ']'
    if isinstance(v, str):
        return 's' + v.encode().hex()
    return str(v)


def unhex(h):
    return bytes.fromhex(h).decode('utf-8', 'replace')


def parse_resp(root, g):
    """-> (status, text, router calls, pre traces, {validation policy: values})"""
    pols = {p.id: n for p, n in all_pols(root)}
    head, *log = g.replace('|', '~|').split('~')
    st = head[:2]
    text = unhex(head[3:].strip()) if st == 'EX' else head
    calls, pre, val, owners = [], [], {}, []
    for e in log:
        if e[0] == '|':
            calls.append(e[1:])
        elif e[0] == 'P':
            i, rest = e[1:].split('@', 1)
            own, toks = rest.split(':', 1)
            cnt, *toks = toks.split(',')
            toks = [unhex(t) for t in toks]
            n = pols[int(i)]
            if n.named and toks and (toks[0] == n.label() or (n.sep and toks[0].startswith(n.label() + n.sep))):
                pre.append((int(i), unhex(own), int(cnt), toks))
        elif e[0] == 'V':
            i, rest = e[1:].split('@', 1)
            own, v = rest.split(':', 1)
            owners.append((int(i), unhex(own)))
            val.setdefault(int(i), set()).add(v)
        elif e[0] == 'M':
            i, own = e[1:].split('@', 1)
            owners.append((int(i), unhex(own)))
    return st, text, calls, pre, val, owners


def judge(root, argv, g):
    """-> (None or what is wrong, sim, expected)"""
    sim = Sim(root)
    exp = sim.run(argv)
    if g == 'NOTRUN':
        return None, sim, exp
    if g[:2] not in ('OK', 'EX'):
        return 'outcome ' + dec(g)[:200], sim, exp
    st, text, calls, pre, val, owners = parse_resp(root, g)
    if st != exp[0]:
        return 'outcome %s, expected %r' % (dec(g)[:300], exp), sim, exp
    if st == 'OK':
        if calls != sim.calls:
            return 'router got %r, expected %r' % (calls, sim.calls), sim, exp
        for i, vs in sim.val.items():
            if val.get(i) != vs:
                return 'validation policy P%d saw %r, expected %r' % (i, sorted(val.get(i, [])), sorted(vs)), sim, exp
    else:
        if calls:
            return 'a router was called although the line is refused: %r' % calls, sim, exp
        if text != exp[1] if exp[2] else not text.startswith(exp[1]):
            return 'error %r, expected %r' % (text, exp[1]), sim, exp
    if st == 'OK' or exp[2]:
        if pre != sim.pre:
            return 'pre-parse policies saw %r, expected %r' % (pre, sim.pre), sim, exp
    nodes = {p.id: n for p, n in all_pols(root)}
    if st == 'OK':
        for n in root.walk():
            order = [p.id for p in sorted((p for p in n.pols if p.phase == 'val'), key=lambda p: -p.key())]
            seen = [i for i, _ in owners if i in order]
            if order and seen != order * (len(seen) // len(order)):
                return 'validation policies of %s were called in the order %r, expected %r' % (n.name, seen, order), sim, exp
    for i, o in owners:
        if o.rsplit('^')[0] != nodes[i].name:
            return 'policy P%d of %s was called with the ancestors of %r' % (i, nodes[i].name, o), sim, exp
    return None, sim, exp


def describe(root):
    return root.cpp() + '  with ' + '; '.join('P%d=%s %s prio=%s %s' % (p.id, p.phase, p.act or '', p.prio, p.arg or '') for p, _ in all_pols(root))


def smaller(root):
    out = []
    nodes = list(root.walk())
    for i, n in enumerate(nodes):
        for j in range(len(n.pols)):
            c = root.clone()
            del list(c.walk())[i].pols[j]
            out.append(c)
        if n.k in ('root', 'mode') and len(n.ch) > 1:
            for j in range(len(n.ch)):
                if any(p.act == 'sub' and p.arg[1] == n.ch[j].name for x in n.ch for p in x.pols):
                    continue
                c = root.clone()
                del list(c.walk())[i].ch[j]
                out.append(c)
    return out


def report(ctx, b, root, exe, argv):
    def bad(t, x, cands):
        return [judge(t, a, g)[0] is not None for a, g in zip(cands, batch(x, [cmdF(0, a) for a in cands], 30))]
    if not bad(root, exe, [argv])[0]:
        ctx.cls('unconfirmed')
        return
    t_end = time.time() + (20 if ctx.violations else 90)
    argv = shrink_argv(argv, lambda cs: bad(root, exe, cs), 300, t_end)
    cur, cexe = root, exe
    n = 0
    while time.time() < t_end:
        n += 1
        cands = dict(('s%d_%d' % (n, i), c) for i, c in enumerate(smaller(cur)))
        res = b.compile_many({k: emit(c) for k, c in cands.items()})
        hit = [k for k, x in res.items() if not isinstance(x, CompileError) and bad(cands[k], x, [argv])[0]]
        if not hit:
            break
        k = min(hit, key=lambda k: len(emit(cands[k])))
        cur, cexe = cands[k], res[k]
    argv = shrink_argv(argv, lambda cs: bad(cur, cexe, cs), 100, t_end)
    g = batch(cexe, [cmdF(0, argv)])[0]
    what = judge(cur, argv, g)[0]
    ctx.violation('argv=%r: %s; tree: %s' % (argv, what, describe(cur)[:1500]),
                  dict(kind='policy', module='checks_policy', cpp=emit(cur), argv=argv, got=dec(g), what_is_wrong=what, tree=dump(cur)))


def dump(n):
    d = {k: v for k, v in n.__dict__.items() if k not in ('pols', 'ch', 'own', 'routing')}
    d['pols'] = [p.__dict__ for p in n.pols]
    d['own'] = n.own and n.own.__dict__
    d['routing'] = n.routing and n.routing.__dict__
    d['ch'] = [dump(c) for c in n.ch]
    return d


def load(d):
    def pol(x):
        p = Pol(0, '')
        p.__dict__.update(x)
        if isinstance(p.arg, list):
            p.arg = tuple(p.arg)
        return p
    n = Nd(**{k: v for k, v in d.items() if k not in ('pols', 'ch', 'own', 'routing')})
    n.cnt = tuple(n.cnt)
    n.pols = [pol(x) for x in d['pols']]
    n.own = d['own'] and pol(d['own'])
    n.routing = d['routing'] and pol(d['routing'])
    n.ch = [load(c) for c in d['ch']]
    return n


def C28(ctx):
    ctx.rule = ('trees whose nodes and modes hold generated policies of a user: pre-parse policies (tracing, skipping, refusing, replacing, '
                'inserting and erasing tokens, parsing another node in place of their own) at random priorities around those of the library, given in any order, validation, parse, '
                'missing and routing policies, and policies that provide names; outcome, router values, refusals and what each policy saw compared with an own '
                'model of the phases; non-trivial: a user\'s policy changed or was decisive for the outcome, or several ran in order')
    b = Build()
    try:
        total = 40 if ctx.quick else 600
        i = 0
        while i < total and not (i and ctx.late()):
            trees = {}
            for j in range(i, min(total, i + 40)):
                trees['t%d' % j] = Gen(ctx.rng('tree', j)).tree()
            i += 40
            exes = b.compile_many({k: emit(t) for k, t in trees.items()})
            for k, exe in exes.items():
                root = trees[k]
                if isinstance(exe, CompileError):
                    if len(ctx.violations) < 3:
                        lines = [l for l in exe.text.split('\n') if 'error' in l][:3]
                        ctx.violation('a tree with user-defined policies does not compile: ' + ' / '.join(x[:300] for x in lines),
                                      dict(kind='compile', cpp=emit(root), diagnostics=exe.text[:5000]))
                    continue
                g = Gen(ctx.rng('line', k))
                seen = set()
                lines = []
                for _ in range(250 if ctx.quick else 1200):
                    a = g.line(root)
                    if tuple(a) not in seen:
                        seen.add(tuple(a))
                        lines.append(a)
                got = batch(exe, [cmdF(0, a) for a in lines])
                bad = []
                for a, r in zip(lines, got):
                    what, sim, exp = judge(root, a, r)
                    nt = bool(sim.marks - {'before-count', 'after-separator'})
                    ctx.case((k, tuple(a)), nt, dict(tree=root.cpp()[:400], argv=a, outcome=dec(r)[:200]) if nt else None)
                    ctx.cls(exp[0])
                    for m in sim.marks:
                        ctx.cls('cov:' + m)
                    if what:
                        bad.append((len(a), a, what))
                if bad:
                    ctx.cls('mismatches', len(bad))
                    if len(ctx.violations) < 3:
                        report(ctx, b, root, exe, min(bad)[1])
                os.unlink(exe)
                ctx.extra['trees'] = ctx.extra.get('trees', 0) + 1
            if len(ctx.violations) >= 3:
                break
    finally:
        b.close()
    ctx.assumptions += ['policies of a node have distinct priorities (the order of equal ones is not specified)',
                        'what a policy saw is judged only where the leading token is addressed to its node']



def replay(d):
    b = Build()
    try:
        b.prepare()
        try:
            exe = b.compile_tu('replay', d['cpp'])
        except CompileError as e:
            print('does not compile:\n' + e.text[:3000])
            return 1
        root = load(d['tree'])
        g = batch(exe, [cmdF(0, d['argv'])])[0]
        what, sim, exp = judge(root, d['argv'], g)
        print('got', dec(g))
        print('expected', exp, sim.calls)
        print(what or 'as expected')
        return 1 if what else 0
    finally:
        b.close()


CHECKS = dict(C28=C28)
TECH = dict(C28='property-based testing: generated user-defined policies in generated trees and generated command lines; oracle: an own model of the parsing phases')
