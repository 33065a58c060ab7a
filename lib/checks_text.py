"""Checks of the text utilities: code points, grapheme clusters, width, wrapping, edit distance."""
import os
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

import uni
from srv import CXX, HERE, REPO, CompileError, batch, compile_cmd

SAN = ['-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
FLAGS = ['-std=c++20', '-w', '-I' + REPO + '/include', '-ferror-limit=5']


def H(s):
    b = s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')
    return 'x' + b.hex()


class Text:
    """The text server, built with and without sanitizers"""

    def __init__(self, sweep=False):
        self.dir = tempfile.mkdtemp(prefix='arv_t')
        jobs = [(self.dir + '/san', ['-O1'] + SAN)]
        if sweep:
            jobs.append((self.dir + '/fast', ['-O2']))
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda j: compile_cmd([CXX] + FLAGS + j[1] + [HERE + '/cpp/text_main.cpp', '-o', j[0]]), jobs))
        self.exe, self.fast = self.dir + '/san', self.dir + '/fast'

    def run(self, cmds, timeout=100):
        """in parallel over 8 processes; sanitizers need address space, so no memory rlimit"""
        if len(cmds) < 64:
            return batch(self.exe, cmds, timeout, mem=None)
        k = (len(cmds) + 7) // 8
        parts = [cmds[i:i + k] for i in range(0, len(cmds), k)]
        with ThreadPoolExecutor(8) as ex:
            return sum(ex.map(lambda p: batch(self.exe, p, timeout, mem=None), parts), [])

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def shrink_seq(seq, fails, budget=300):
    """ddmin of a sequence; fails(list of candidates) -> list of bool"""
    cur = seq
    used = 0
    chunk = max(1, len(cur) // 2)
    while chunk and used < budget and len(cur):
        cands = [cur[:i] + cur[i + chunk:] for i in range(0, len(cur), chunk)]
        used += len(cands)
        hit = [c for c, f in zip(cands, fails(cands)) if f]
        if hit:
            cur = hit[0]
            chunk = min(chunk, max(1, len(cur) // 2))
        elif chunk == 1:
            break
        else:
            chunk //= 2
    return cur


def compare(ctx, t, items, mk, oracle, what, nontrivial, module='checks_text', maxviol=3):
    """items: inputs; mk(item) -> command; oracle(item) -> expected response (or a predicate on the response)"""
    got = t.run([mk(x) for x in items])
    for x, g in zip(items, got):
        if g == 'NOTRUN':
            continue
        e = oracle(x)
        ok = e(g) if callable(e) else g == e
        nt = nontrivial(x)
        ctx.case((what, x), nt, dict(check=what, input=ascii(x), outcome=g[:200]) if nt else None)
        ctx.cls(what)
        if ok:
            continue
        ctx.cls('mismatches')
        if len(ctx.violations) >= maxviol:
            continue
        tail = x[:-1] if isinstance(x, tuple) else ()
        s = x[-1] if isinstance(x, tuple) else x

        def rebuild(s2):
            return tail + (s2,) if isinstance(x, tuple) else s2

        def fails(cs):
            gs = batch(t.exe, [mk(rebuild(c)) for c in cs], 60, mem=None, maxcrash=40)
            out = []
            for c, gg in zip(cs, gs):
                ee = oracle(rebuild(c))
                out.append(gg != 'NOTRUN' and not (ee(gg) if callable(ee) else gg == ee))
            return out
        if not fails([s])[0]:
            ctx.cls('unconfirmed')
            continue
        y = rebuild(shrink_seq(s, fails))
        g = batch(t.exe, [mk(y)], 60, mem=None)[0]
        e = oracle(y)
        ctx.violation('%s of %s: got %s%s' % (what, ascii(y), g[:800], '' if callable(e) else ', expected ' + e),
                      dict(kind='text', module=module, cmd=mk(y), got=g, expected=None if callable(e) else e,
                           input=ascii(y)))


def replay(d):
    t = Text()
    try:
        g = batch(t.exe, [d['cmd']], 60, mem=None)[0]
        print('got     ', g)
        print('expected', d['expected'] if d['expected'] is not None else '(invariant, see the description above)')
        return 0 if g == d['expected'] else 1
    finally:
        t.close()


# ---------------------------------------------------------------- generators
EDGES = [0x00, 0x09, 0x0A, 0x20, 0x7F, 0x80, 0x7FF, 0x7C0, 0x7BF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xEFFF, 0xF000,
         0xFFFD, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000, 0x10FFFF]


def scalar(r):
    k = r.random()
    if k < .25:
        return r.choice(EDGES)
    if k < .5:
        return r.randrange(0x80)
    if k < .65:
        return r.randrange(0x80, 0x800)
    if k < .85:
        c = r.randrange(0x800, 0x10000)
        return c if not 0xD800 <= c <= 0xDFFF else 0x20AC
    return r.randrange(0x10000, 0x110000)


GCW = ['EX', 'EX', 'ZWJ', 'ZWJ', 'EP', 'EP', 'RI', 'RI', 'PP', 'SM', 'L', 'V', 'T', 'LV', 'LVT', 'CR', 'LF', 'CN', 'XX', 'XX']
LBW = ['AL', 'AL', 'AL', 'SP', 'SP', 'SP', 'BA', 'BB', 'B2', 'CL', 'CM', 'CM', 'CP', 'EB', 'EM', 'EX', 'GL', 'H2', 'H3',
       'HY', 'ID', 'ID', 'HL', 'IN', 'IS', 'JL', 'JV', 'JT', 'NS', 'NU', 'OP', 'PO', 'PR', 'QU', 'RI', 'RI', 'SY', 'WJ', 'ZWJ']
# line break classes of these changed between Unicode 14 (the library's tables) and 15 (the reference data)
LBCHANGED = (0x1DCD, 0x1DFC, 0x2057)


def gc_string(r):
    s = ''.join(chr(r.choice(uni.of_class('G', r.choice(GCW)))) for _ in range(r.randint(0, 12)))
    # flags are paired by looking back over the configured window
    run = 0
    for c in s:
        run = run + 1 if uni.gcb(ord(c)) == 'RI' else 0
    return s


def lb_string(r, n=16):
    s = ''
    for _ in range(r.randint(0, n)):
        if r.random() < .5:
            c = ord(r.choice('abcde (1)"-/,!$%.  '))
        else:
            c = r.choice(uni.of_class('L', r.choice(LBW)))
        if c in LBCHANGED or uni.data()['GC'](c) == 'Cn':
            continue
        l = uni.lb(c)
        if l in ('OP', 'CP') and uni.data()['EA'](c) in ('W', 'F', 'H'):
            continue                                   # LB30 depends on the East Asian width
        if s and uni.lb(ord(s[-1])) == 'ZWJ' and l in ('CM', 'ZWJ', 'RI', 'SP'):
            continue
        if l == 'ZWJ' and s and uni.lb(ord(s[-1])) in ('RI', 'ZWJ', 'CM', 'HL'):
            continue
        s += chr(c)
    return s


def words(r):
    """prose like the descriptions help output wraps"""
    w = ['sets', 'the', 'level', 'of', '--verbose', '(default:', '"none")', 'a/b/c', 'don\u2019t', 'caf\u00e9', 'cafe\u0301',
         '\u65e5\u672c\u8a9e', '\u3053\u3093\u306b\u3061\u306f', '\U0001F1EC\U0001F1E7\U0001F1EB\U0001F1F7', '$100.00', '50%',
         'well-known', '...', 'x', 'i.e.', '\u05e9\u05dc\u05d5\u05dd', '\ud55c\uad6d\uc5b4', '3.14', 'e=mc2', '\u2014', 'longestwordofall']
    return r.choice([' ', ' ', '  ', '\u3000']).join(r.choice(w) for _ in range(r.randint(1, 9)))


def raw_bytes(r):
    out = b''
    for _ in range(r.randint(0, 10)):
        k = r.random()
        if k < .3:
            out += bytes([r.randrange(256)])
        elif k < .6:
            out += chr(scalar(r)).encode()
        elif k < .8:
            b = chr(r.choice([0x7FF, 0xFFF, 0xEFFF, 0x10FFFF, 0x80, 0x800])).encode()
            out += b[:r.randint(1, len(b))]
        else:
            out += r.choice([b'\xc0', b'\xff', b'\xfe\xff', b'\xf8\x88\x80\x80\x80', b'\xed\xa0\x80', b'\x80', b'\xdf', b'\xef', b'\xf7'])
    return out


def qt(ctx, q, t):
    return q if ctx.quick else t


# ---------------------------------------------------------------- C17
def C17(ctx):
    ctx.rule = ('strings of Unicode scalar values, weighted to the borders of the encoded lengths; sizes, decoded values, '
                'count, partition and iterator relations compared with Python\'s codec; every scalar value swept; '
                'non-trivial: the string holds a multi-byte code point')
    t = Text(sweep=True)
    try:
        r = ctx.rng('s')
        items = list(dict.fromkeys(''.join(chr(scalar(r)) for _ in range(r.randint(0, 10))) for _ in range(qt(ctx, 20000, 400000))))

        def exp(s):
            b = s.encode()
            return ' '.join([str(len(s)), str(len(s[0].encode()) if s else 0)] +
                            ['%d:%d' % (len(c.encode()), ord(c)) for c in s] + ['ok'])
        compare(ctx, t, items, lambda s: 'cps ' + H(s), exp, 'code points', lambda s: any(ord(c) > 127 for c in s))
        rg = []
        for _ in range(qt(ctx, 3000, 50000)):
            a, b = sorted((scalar(r), scalar(r)))
            f2, l2 = sorted((r.choice([a, scalar(r)]), r.choice([b, scalar(r)])))
            rg.append((a, b, r.randrange(64), r.choice([a, b, a - 1 if a else 0, a + 1, scalar(r)]), f2, l2))

        def rexp(q):
            a, b, m, c, f2, l2 = q
            return '%d %d %d %d %d %d' % (a, b, m, a < c, (a, b) < (f2, l2), (f2, l2) < (a, b))
        got = t.run(['range %d %d %d %d %d %d' % q for q in rg])
        for q, g in zip(rg, got):
            ctx.case(('range', q), True, None)
            ctx.cls('range')
            if g != rexp(q) and len(ctx.violations) < 3:
                ctx.violation('code point range %r: got %s expected %s' % (q, g, rexp(q)),
                              dict(kind='text', module='checks_text', cmd='range %d %d %d %d %d %d' % q, got=g, expected=rexp(q)))
        o = batch(t.fast, ['sweep cp'], 300)[0]
        ctx.case(('sweep',), True, None)
        ctx.extra['scalar_values_swept'] = 0x110000 - 2048
        if o.strip() != '0=1' and len(ctx.violations) < 3:
            ctx.violation('decode/size/count wrong for some scalar value: %s' % o[:400],
                          dict(kind='text', module='checks_text', cmd='sweep cp', got=o[:4000], expected='0=1'))
    finally:
        t.close()
    ctx.assumptions.append('strings of at most 10 code points; every scalar value alone')


# ---------------------------------------------------------------- sweeps
def expand(text):
    s, v = [], []
    for x in text.split():
        a, b = x.split('=')
        s.append(int(a, 16))
        v.append(b)
    return uni.Prop(s, v)


def sweep(ctx, t, cmd, oracle, what, skip=lambda c: False):
    """compares a per-code-point signature over all assigned code points; oracle is memoised by class"""
    o = batch(t.fast, [cmd], 600, mem=None)[0]
    if o.startswith(('CRASH', 'HANG')):
        ctx.violation('%s sweep died: %s' % (what, o[:600]), dict(kind='text', module='checks_text', cmd=cmd, got=o, expected='x'))
        return
    p = expand(o)
    bad = []
    n = 0
    for c in range(0x110000):
        if 0xD800 <= c <= 0xDFFF or not uni.known14(c) or skip(c):
            continue
        n += 1
        e = oracle(c)
        if p(c) != e:
            bad.append((c, p(c), e))
    ctx.extra[what + '_code_points_swept'] = n
    ctx.case((what, 'sweep'), True, None)
    if bad and len(ctx.violations) < 3:
        c, g, e = bad[0]
        ctx.violation('%s: %d code points disagree with Unicode, first U+%04X: signature %s, expected %s' % (what, len(bad), c, g, e),
                      dict(kind='text', module='checks_text', cmd=cmd, got='U+%04X %s' % (c, g), expected=e,
                           code_points=['U+%04X' % x[0] for x in bad[:200]]))


# ---------------------------------------------------------------- C18
GCREPS = ['a', '\r', '\n', '\u0300', '\u200d', '\U0001F1E6', '\u0600', '\u0903', '\u1100', '\u1160', '\u11a8', '\uac00', '\uac01',
          '\u2764', '\u2764\u200d']


def C18(ctx):
    ctx.rule = ('strings over all grapheme break classes against UAX #29 on independent data (Perl\'s); every assigned '
                'code point paired with a representative of every class; constant evaluation of the same functions; '
                'non-trivial: a cluster of at least two code points')
    t = Text(sweep=True)
    try:
        r = ctx.rng('g')

        def exp(s):
            e = [len(g.encode()) for g in uni.graphemes(s)]
            return ' '.join(map(str, [len(e)] + e + ['ok']))
        items = list(dict.fromkeys([gc_string(r) for _ in range(qt(ctx, 12000, 300000))] +
                                   [words(r) for _ in range(500)]))
        compare(ctx, t, items, lambda s: 'gcs ' + H(s), exp, 'clusters', lambda s: len(uni.graphemes(s)) < len(s))
        reps = GCREPS if not ctx.quick else [GCREPS[i] for i in (1, 3, 4, 5, 6, 8, 9, 11, 14)]
        memo = {}

        def sig(c):
            g = uni.gcb(c)
            if g not in memo:
                n = lambda s: len(uni.gc_boundaries([ord(x) for x in s]))
                memo[g] = ''.join('%d%d%d' % (n(chr(c) + q), n(q + chr(c)), n(q + chr(c) + q)) for q in reps)
            return memo[g]
        sweep(ctx, t, 'sweep gc ' + ' '.join(H(x) for x in reps), sig, 'grapheme')
        constant(ctx, t, [gc_string(r) for _ in range(qt(ctx, 60, 600))] + [words(r) for _ in range(20)])
    finally:
        t.close()
    ctx.assumptions += ['Unicode 15.0 data restricted to code points assigned by 14.0',
                        'runs of regional indicators no longer than the configured trailing window (16)']


CONST = '''#include "arg_router/arg_router.hpp"
#include <cstdio>
namespace u8 = arg_router::utility::utf8;
struct R { std::size_t n{}; std::size_t v[64]{}; std::size_t w{}; std::size_t c{}; bool ws{}; std::size_t l[96]{}; std::size_t ln{}; };
constexpr R f(std::string_view s, std::size_t cols) {
  R r;
  r.n = u8::count(s); r.w = u8::terminal_width(s); r.c = u8::code_point::count(s); r.ws = u8::contains_whitespace(s);
  std::size_t i = 0;
  for (auto g : u8::iterator::range(s)) { if (i < 64) r.v[i] = g.size(); ++i; }
  for (auto it = u8::line_iterator{s, cols}; it != u8::line_iterator{}; ++it) { if (r.ln < 96) r.l[r.ln] = (*it).size(); ++r.ln; }
  return r;
}
static void p(const R& r) {
  std::printf("%zu %zu %zu %d |", r.n, r.w, r.c, int(r.ws));
  for (std::size_t i = 0; i < r.n && i < 64; ++i) std::printf(" %zu", r.v[i]);
  std::printf(" |"); for (std::size_t i = 0; i < r.ln && i < 96; ++i) std::printf(" %zu", r.l[i]);
  std::printf("\\n");
}
template <typename F> static void run(F str, std::size_t cols) { volatile std::size_t c = cols; std::string s{str()}; p(f(s, c)); }
int main() {
'''


def constant(ctx, t, strs):
    """constant evaluation = run time"""
    src = CONST
    strs = [(s, 1 + i % 9) for i, s in enumerate(strs) if '\0' not in s]
    for i, (s, n) in enumerate(strs):
        lit = ''.join('\\%03o' % b for b in s.encode())
        src += '  { constexpr auto r = f(std::string_view{"%s", %d}, %d); p(r); run([] { return std::string_view{"%s", %d}; }, %d); }\n' % (
            lit, len(s.encode()), n, lit, len(s.encode()), n)
    src += '}\n'
    cpp = t.dir + '/const.cpp'
    open(cpp, 'w').write(src)
    try:
        compile_cmd([CXX] + FLAGS + ['-O0', '-fconstexpr-steps=200000000', cpp, '-o', t.dir + '/const'])
    except CompileError as e:
        ctx.violation('the UTF-8 functions are not usable in constant expressions: ' + e.text[:600],
                      dict(kind='text', module='checks_text', cmd='', got=e.text[:4000], expected='compiles', cpp=src))
        return
    o = subprocess.run([t.dir + '/const'], stdout=subprocess.PIPE, timeout=60).stdout.decode().splitlines()
    for i, (s, n) in enumerate(strs):
        a, b = o[2 * i], o[2 * i + 1]
        ctx.case(('const', s, n), len(s) > 1, None)
        ctx.cls('constant')
        if a != b and len(ctx.violations) < 3:
            ctx.violation('compile time and run time differ for %s: %s / %s' % (ascii(s), a, b),
                          dict(kind='text', module='checks_text', cmd='', got=a, expected=b, cpp=src))


# ---------------------------------------------------------------- C19
def C19(ctx):
    ctx.rule = ('width and white-space classification of every assigned code point and of random strings against Unicode '
                'data (Perl\'s); additivity over concatenation; non-trivial: the string holds a character whose width is '
                'not 1 or that is white space')
    t = Text(sweep=True)
    try:
        r = ctx.rng('w')
        sweep(ctx, t, 'sweep w', lambda c: '%d%s' % (uni.width1(c), 'w' if uni.white(c) else ''), 'width')

        def mk():
            k = r.random()
            if k < .5:
                return gc_string(r)
            if k < .8:
                return words(r)
            return ''.join(chr(c) for c in (scalar(r) for _ in range(r.randint(0, 9))) if uni.known14(c))
        items = list(dict.fromkeys(mk() for _ in range(qt(ctx, 15000, 300000))))

        def exp(s):
            return '%d %d %d' % (uni.width(s), bool(s) and uni.white(ord(s[0])), any(uni.white(ord(c)) for c in s))
        compare(ctx, t, items, lambda s: 'w ' + H(s), exp, 'width',
                lambda s: any(uni.width1(ord(c)) != 1 or uni.white(ord(c)) for c in s))
    finally:
        t.close()
    ctx.assumptions.append('Unicode 15.0 data restricted to code points assigned by 14.0')


# ---------------------------------------------------------------- C20
LBREPS = ['a', '\u0300', '(', ')', '$', '"', '-', '\u65e5', '\u1160', '\u05d0', '\u2014', '\U0001F1E6', ' ', '1', '%', '!', '\u1100',
          '\u11a8', '\uac00', '\uac01', '/', '\u3041', '\u00a0', '\u2026', ',', '\u00b4', '\u2012', '\U0001f466', '\U0001f3fb', '\u2060']


def wrap_invariants(n, b):
    """response predicate for arbitrary bytes: order, nothing lost but white space, no over-long line, no empty line"""
    try:
        b.decode()
        valid = True
    except UnicodeDecodeError:
        valid = False

    def ok(g):
        f = g.split()
        if not f or f[0] != 'L' or 'LOOP' in g:
            return False
        pos = 0
        for i, x in enumerate(f[1:]):
            a, l = map(int, x.split(':'))
            if l == 0 or a < pos or a + l > len(b):
                return False
            if valid:
                lost = b[pos:a].decode()
                if lost and (i == 0 or any(not uni.white(ord(c)) for c in lost)):
                    return False
                line = b[a:a + l].decode()
                if all(uni.known14(ord(c)) for c in line) and uni.width(line) > n and len(line) > 1:
                    return False
            pos = a + l
        # what a malformed sequence is worth is the library's choice: only order, progress and bounds are judged
        return not valid or n == 0 or all(uni.white(ord(c)) for c in b[pos:].decode())
    return ok


def C20(ctx):
    ctx.rule = ('texts over all line break classes and prose, every column limit 0..40; lines compared with greedy '
                'wrapping at UAX #14 opportunities; arbitrary bytes against the loss/width/termination invariants; '
                'every assigned code point next to representatives of the classes; non-trivial: more than one line')
    t = Text(sweep=True)
    try:
        r = ctx.rng('l')
        items = []
        for _ in range(qt(ctx, 9000, 200000)):
            if r.random() < .6:
                items.append((r.randint(0, 10), lb_string(r)))
            else:
                items.append((r.randint(1, 40), words(r)))
        items = list(dict.fromkeys(items))

        def exp(x):
            n, s = x
            return ' '.join(['L'] + ['%d:%d' % (len(s[:a].encode()), len(s[a:b].encode())) for a, b in uni.wrap(s, n)])
        compare(ctx, t, items, lambda x: 'wrap %d %s' % (x[0], H(x[1])), exp, 'wrapping',
                lambda x: x[0] > 0 and len(uni.wrap(x[1], x[0])) > 1)
        items = list(dict.fromkeys((r.choice([0, 1, 1, 2, 3, 5, 8]), raw_bytes(r) if r.random() < .7 else gc_string(r).encode())
                                   for _ in range(qt(ctx, 6000, 100000))))
        compare(ctx, t, items, lambda x: 'wrap %d %s' % (x[0], H(x[1])), lambda x: wrap_invariants(*x), 'wrapping bytes',
                lambda x: len(x[1]) > 1)
        reps = LBREPS[:8] if ctx.quick else LBREPS
        memo = {}

        def sig(c):
            s = chr(c)
            k = (uni.lb(c), uni.width1(c), len(s.encode()))
            if k not in memo:
                o = ''
                for q in reps:
                    for x, y in ((s, q), (q, s)):
                        tx = 'a' + x + y + 'aaaaaaaa'
                        a, b = uni.wrap(tx, uni.width('a' + x + y) + 2)[0]
                        o += chr(48 + len(tx[a:b].encode()))
                memo[k] = o
            return memo[k]
        # quick: one sample in the big blocks is enough, they are single table entries
        sweep(ctx, t, 'sweep lb ' + ' '.join(H(x) for x in reps), sig, 'line_break',
              skip=lambda c: c in LBCHANGED or uni.data()['GC'](c) == 'Cn' or uni.lb(c) in ('BK', 'CR', 'LF', 'NL', 'ZW', 'CB') or
              (uni.lb(c) in ('OP', 'CP') and uni.data()['EA'](c) in ('W', 'F', 'H')))
    finally:
        t.close()
    ctx.assumptions += ['Unicode 15.0 data restricted to code points assigned by 14.0 and three code points whose class changed excluded',
                        'opportunities are judged on texts without hard line breaks, ZW, CB, wide brackets and a ZWJ before a space '
                        'or mark, which the library does not claim to tailor for; those only against the invariants']


# ---------------------------------------------------------------- C14's second half
def distance(ctx):
    t = Text()
    try:
        r = ctx.rng('lev')
        items = []
        for _ in range(qt(ctx, 4000, 60000)):
            a = r.choice([gc_string, words, lambda q: ''.join(q.choice('ab\u00e9-') for _ in range(q.randint(0, 8)))])(r)[:20]
            k = r.random()
            if k < .1:
                b = a
            elif k < .6 and a:
                g = uni.graphemes(a)
                for _k in range(r.randint(1, 3)):
                    x = r.randrange(3)
                    i = r.randint(0, max(0, len(g) - 1))
                    if x == 0 and g:
                        del g[i]
                    elif x == 1:
                        g.insert(i, r.choice(['a', '\u00e9', 'e\u0301', '\U0001F1E6\U0001F1E7', '\u65e5']))
                    elif g:
                        g[i] = r.choice(['z', '\u00e9', 'e\u0301'])
                b = ''.join(g)
            else:
                b = gc_string(r)
            items.append((a, b))
        items = list(dict.fromkeys(items))

        def lev(a, b):
            x, y = uni.graphemes(a), uni.graphemes(b)
            p = list(range(len(y) + 1))
            for i, c in enumerate(x):
                q = [i + 1]
                for j, d in enumerate(y):
                    q.append(min(p[j] + (c != d), p[j + 1] + 1, q[j] + 1))
                p = q
            return str(p[-1])
        compare(ctx, t, items, lambda x: 'lev %s %s' % (H(x[0]), H(x[1])), lambda x: lev(*x), 'distance',
                lambda x: x[0] != x[1] and x[0] and x[1])
        # the metric axioms on triples
        tri = [(a, b, r.choice(items)[r.randrange(2)]) for a, b in items[:qt(ctx, 700, 10000)]]
        cmds = []
        for a, b, c in tri:
            for x, y in ((a, b), (b, a), (b, c), (a, c), (a, a)):
                cmds.append('lev %s %s' % (H(x), H(y)))
        got = t.run(cmds)
        for i, q in enumerate(tri):
            g = got[5 * i:5 * i + 5]
            ctx.case(('axioms', q), True, None)
            ctx.cls('axioms')
            if not all(x.isdigit() for x in g):
                bad = 'no answer'
            else:
                ab, ba, bc, ac, aa = map(int, g)
                bad = '' if ab == ba and aa == 0 and (ab == 0) == (q[0] == q[1]) and ac <= ab + bc else 'axioms broken'
            if bad and len(ctx.violations) < 3:
                ctx.violation('edit distance %s for %s: %s' % (bad, ascii(q), g),
                              dict(kind='text', module='checks_text', cmd=cmds[5 * i], got=g, expected='metric axioms'))
    finally:
        t.close()


CHECKS = dict(C17=C17, C18=C18, C19=C19, C20=C20)
TECH = dict(C17='random strings of scalar values and an exhaustive sweep of single ones; oracle: Python\'s codec',
            C18='random strings over the break classes and a sweep of all code points; oracle: UAX #29 on Perl\'s Unicode data',
            C19='sweep of all code points and random strings; oracle: Perl\'s Unicode data',
            C20='random texts and column limits; oracle: greedy wrapping at UAX #14 opportunities, invariants on arbitrary bytes')
