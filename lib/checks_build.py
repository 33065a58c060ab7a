"""Checks that need generated programs other than trees: error texts (C15), compile-time strings (C21)."""
import itertools
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

import uni
from srv import CXX, HERE, REPO, JOBS, CompileError, batch, compile_cmd, run

FLAGS = ['-std=c++20', '-O0', '-w', '-D_GLIBCXX_ASSERTIONS', '-I' + REPO + '/include', '-I' + HERE + '/cpp', '-ferror-limit=3',
         '-ftemplate-backtrace-limit=4']
S17 = ['-DAR_DISABLE_CPP20_STRINGS=true']


def lit(s):
    """a C++ string literal, octal escapes for everything unusual"""
    o = '"'
    for b in (s if isinstance(s, bytes) else s.encode()):
        c = chr(b)
        o += c if (32 <= b < 127 and c not in '"\\?') else '\\%03o' % b
    return o + '"'


def hx(s):
    return 'x' + (s if isinstance(s, bytes) else s.encode()).hex()


class Progs:
    def __init__(self, ctx):
        self.ctx = ctx
        self.dir = tempfile.mkdtemp(prefix='arv_b')

    def compile(self, items):
        """items: {name: (source, flags)} -> {name: exe or CompileError}"""
        def one(kv):
            name, (src, flags) = kv
            cpp, exe = '%s/%s.cpp' % (self.dir, name), '%s/%s' % (self.dir, name)
            with open(cpp, 'w') as f:
                f.write(src)
            try:
                compile_cmd([CXX] + FLAGS + list(flags) + [cpp, '-o', exe])
                return name, exe
            except CompileError as e:
                return name, e
        with ThreadPoolExecutor(JOBS) as ex:
            return dict(ex.map(one, items.items()))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def replay(d):
    """recorded: source, flags, command, expected answer"""
    t = tempfile.mkdtemp(prefix='arv_b')
    try:
        with open(t + '/a.cpp', 'w') as f:
            f.write(d['cpp'])
        try:
            compile_cmd([CXX] + FLAGS + list(d['flags']) + [t + '/a.cpp', '-o', t + '/a'])
        except CompileError as e:
            print('does not compile:\n' + e.text[:3000])
            return 1
        if 'cmd' not in d:
            print('compiles now')
            return 0
        g = batch(t + '/a', [d['cmd']], 20)[0]
        print('got', show(g))
        print('expected', show(d['expected']))
        return 0 if g == d['expected'] else 1
    finally:
        shutil.rmtree(t, ignore_errors=True)


def show(r):
    out = []
    for w in r.split(' '):
        if re.fullmatch(r'x([0-9a-f][0-9a-f])*', w):
            out.append(repr(bytes.fromhex(w[1:]).decode('utf-8', 'replace')))
        else:
            out.append(w)
    return ' '.join(out)


SERVER = r'''
#include <arg_router/arg_router.hpp>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace ar = arg_router;
namespace arp = arg_router::policy;
using TokVec = ar::vector<ar::parsing::token_type>;
static std::string hexs(std::string_view s)
{
    static const char* d = "0123456789abcdef";
    std::string o = "x";
    for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
    return o;
}
static std::string unhexs(const std::string& h)
{
    std::string o;
    for (std::size_t i = 1; i + 1 < h.size(); i += 2) o += char(std::stoi(h.substr(i, 2), nullptr, 16));
    return o;
}
static std::deque<std::string> keep;
static TokVec toks(std::istream& in)
{
    TokVec v;
    std::string p, h;
    while (in >> p >> h) {
        keep.push_back(unhexs(h));
        v.push_back({p == "n" ? ar::parsing::prefix_type::none : p == "s" ? ar::parsing::prefix_type::short_ : ar::parsing::prefix_type::long_, keep.back()});
    }
    return v;
}
using Fn = std::function<std::string(std::istream&)>;
static std::map<std::string, Fn> table;
template <typename F> static std::string what(F f)
{
    try { f(); } catch (const ar::parse_exception& e) { return hexs(e.what()); } catch (const std::exception& e) { return std::string("other ") + hexs(e.what()); }
    return "nothing";
}
static void fill();
int main()
{
    fill();
    std::string line;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line);
        std::string k;
        in >> k;
        keep.clear();
        auto it = table.find(k);
        std::cout << (it == table.end() ? std::string("unknown") : it->second(in)) << "\n" << std::flush;
    }
}
'''


# ---------------------------------------------------------------- C15
LITS = ['Unknown', ' ', 'a', ': ', '. Did you mean ', '?', 'Bad "x"', 'é', '日本', ', ', '-', '\U0001F1F8\U0001F1EA', '%s', '\\n', 'x}y', '}', '$1',
        "it's", '()', '/', 'long text with several words in it']
SEPS = [', ', '/', ' ', '-', ' und ', '→', '::', 'x', '日', '. ']
NAMES = ['a', 'bb', 'name', 'é', '日本語', 'with space', '', '{}', '{, }', '}', 'a{b', '-dash', '--', 'x' * 40]
PFX = dict(n='', s='-', l='--')


def fmt_of(rng):
    while True:                      # the C++17 strings hold at most 127 characters, and ": {, }" may be appended
        parts = fmt_once(rng)
        if len(fmt_text(parts).encode()) <= 115:
            return parts


def fmt_once(rng):
    """-> list of parts: str literals, None for {}, ('g', sep)"""
    parts = []
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 6])
    for _ in range(n):
        if rng.random() < .75:
            parts.append(''.join(rng.choice(LITS) for _ in range(rng.randint(1, 2))))
        parts.append(None)
    if n and rng.random() < .35 or not n and rng.random() < .5:
        if rng.random() < .7:
            parts.append(rng.choice(LITS))
        parts.append(('g', ''.join(rng.choice(SEPS) for _ in range(rng.randint(1, 2)))))
    if rng.random() < .6 or not parts:
        parts.append(''.join(rng.choice(LITS) for _ in range(rng.randint(1, 3))))
    return parts


def fmt_text(parts):
    return ''.join('{}' if p is None else '{%s}' % p[1] if isinstance(p, tuple) else p for p in parts)


def tok_text(t):
    return PFX[t[0]] + t[1]


def fmt_expect(parts, toks):
    rest = [tok_text(t) for t in toks]
    if not any(p is None or isinstance(p, tuple) for p in parts):
        s = ''.join(parts)
        return s + ': ' + ', '.join(rest) if toks else s
    o = ''
    for p in parts:
        if p is None:
            o += rest.pop(0) if rest else ''
        elif isinstance(p, tuple):
            o += p[1].join(rest)
            rest = []
        else:
            o += p
    return o


CODES = dict(unknown_argument=(0, 'Unknown argument'), unhandled_arguments=(1, 'Unhandled arguments'),
             argument_has_already_been_set=(2, 'Argument has already been set'), failed_to_parse=(3, 'Failed to parse'),
             no_arguments_passed=(4, 'No arguments passed'), minimum_value_not_reached=(5, 'Minimum value not reached'),
             maximum_value_exceeded=(6, 'Maximum value exceeded'), minimum_count_not_reached=(7, 'Minimum count not reached'),
             maximum_count_exceeded=(8, 'Maximum count exceeded'),
             unknown_argument_with_suggestion=(9, 'Unknown argument: {}. Did you mean { }?'),
             mode_requires_arguments=(100, 'Mode requires arguments'),
             missing_required_argument=(101, 'Missing required argument'),
             too_few_values_for_alias=(102, 'Too few values for alias'),
             dependent_argument_missing=(103, 'Dependent argument missing (needs to be before the requiring token on the command line)'),
             one_of_selected_type_mismatch=(104, 'Only one argument from a "One Of" can be used at once'),
             missing_value_separator=(105, 'Expected a value separator'))
BYNUM = {v[0]: k for k, v in CODES.items()}


def default_parts(text):
    return ['Unknown argument: ', None, '. Did you mean ', ('g', ' '), '?'] if '{}' in text else [text]


def gen_toks(rng):
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, 7])
    return [(rng.choice('nsl'), rng.choice(NAMES)) for _ in range(n)]


def tokcmd(toks):
    return ' '.join('%s %s' % (p, hx(n)) for p, n in toks)


def C15(ctx):
    ctx.rule = ('generated formats, translators (tables of codes with and without the default fallback) and token lists; '
                'oracle: a reference formatter over the parts the format was built from; non-trivial: the number of '
                'tokens differs from the number of placeholders, or there are at least two of both, or a fallback is used')
    nf, ntr = (34, 12) if ctx.quick else (120, 30)
    per = 40 if ctx.quick else 150
    tus = 4 if ctx.quick else 16
    items, metas = {}, {}
    for t in range(tus):
        rng = ctx.rng('tu', t)
        meta, body, types = {}, '', ''
        for i in range(nf):
            parts = fmt_of(rng)
            meta['f%d' % i] = ('fmt', parts)
            body += 'table["f%d"] = [](std::istream& in) { return hexs(ar::utility::exception_formatter<AR_STRING(%s)>::format(toks(in))); };\n' % (
                i, lit(fmt_text(parts)))
        for i in range(ntr):
            codes = rng.sample(sorted(CODES), rng.choice([0, 1, 2, 5, len(CODES)]))
            extra = [rng.choice([1000, 1001, 5000])] if rng.random() < .4 else []
            fb = rng.random() < .7
            table = {}
            ents = []
            for c in codes + extra:
                parts = fmt_of(rng)
                num = CODES[c][0] if isinstance(c, str) else c
                table[num] = parts
                ents.append('std::pair<ar::traits::integral_constant<%s>, AR_STRING(%s)>' % (
                    'ar::error_code::' + c if isinstance(c, str) else 'static_cast<ar::error_code>(%d)' % c, lit(fmt_text(parts))))
            types += 'struct T%d { using error_code_translations = std::tuple<%s>; };\n' % (i, ', '.join(ents))
            fallback = None
            if fb and rng.random() < .4:
                fcodes = rng.sample(sorted(CODES), rng.choice([1, 3, len(CODES)]))
                fallback = {CODES[c][0]: fmt_of(rng) for c in fcodes}
                types += 'struct F%d { using error_code_translations = std::tuple<%s>; };\n' % (i, ', '.join(
                    'std::pair<ar::traits::integral_constant<static_cast<ar::error_code>(%d)>, AR_STRING(%s)>' % (k, lit(fmt_text(v)))
                    for k, v in fallback.items()))
                pol = 'arp::exception_translator_t<T%d, F%d>' % (i, i)
            elif fb:
                fallback = {v[0]: default_parts(v[1]) for v in CODES.values()}
                pol = 'arp::exception_translator_t<T%d>' % i
            else:
                fallback = {}
                pol = 'arp::exception_translator_t<T%d, void>' % i
            meta['t%d' % i] = ('tr', table, fallback)
            body += ('table["t%d"] = [](std::istream& in) { std::size_t c; in >> c; auto v = toks(in); return what([&] { %s::translate_exception('
                     'v.size() == 1 ? ar::multi_lang_exception{static_cast<ar::error_code>(c), v[0]} : v.empty() ? '
                     'ar::multi_lang_exception{static_cast<ar::error_code>(c)} : ar::multi_lang_exception{static_cast<ar::error_code>(c), v}); }); };\n' % (i, pol))
        body += ('table["m"] = [](std::istream& in) { std::string m; in >> m; m = unhexs(m); auto v = toks(in); return what([&] { '
                 'if (v.size() == 1) throw ar::parse_exception{ar::string{m}, v[0]}; throw ar::parse_exception{ar::string{m}, v}; }); };\n')
        body += 'table["s"] = [](std::istream& in) { return hexs(ar::parsing::to_string(toks(in))); };\n'
        src = '#include <deque>\n' + SERVER + types + 'static void fill()\n{\n' + body + '}\n'
        fl = S17 if t % 4 == 3 else []
        items['e%d' % t] = (src, fl)
        metas['e%d' % t] = meta
    P = Progs(ctx)
    try:
        exes = P.compile(items)
        for name, exe in exes.items():
            src, fl = items[name]
            if isinstance(exe, CompileError):
                ctx.violation('valid formats do not compile: ' + exe.text[:800], dict(module='checks_build', cpp=src, flags=fl))
                return
            rng = ctx.rng('run', name)
            cmds, exps, infos = [], [], []
            for k, m in metas[name].items():
                for _ in range(per):
                    toks = gen_toks(rng)
                    if m[0] == 'fmt':
                        parts = m[1]
                        cmds.append('%s %s' % (k, tokcmd(toks)))
                        exps.append(hx(fmt_expect(parts, toks)))
                        fb = False
                        ctx.cls('formatter')
                    else:
                        num = rng.choice(sorted(BYNUM) + [1000, 1001, 5000, 9999] + list(m[1]) * 2)
                        fb = num not in m[1]
                        parts = m[1].get(num) or m[2].get(num)
                        if parts:
                            e = fmt_expect(parts, toks)
                            ctx.cls('translator-fallback' if fb else 'translator-own')
                        else:
                            e = fmt_expect(['Untranslated error code (%d)' % num], toks)
                            ctx.cls('untranslated')
                        cmds.append('%s %d %s' % (k, num, tokcmd(toks)))
                        exps.append(hx(e))
                    ph = sum(p is None or isinstance(p, tuple) for p in parts or [])
                    infos.append((fb or ph != len(toks) or ph > 1, parts and fmt_text(parts), toks))
            for _ in range(per):
                toks = gen_toks(rng)
                msg = ''.join(rng.choice(LITS) for _ in range(rng.randint(1, 3)))
                cmds.append('m %s %s' % (hx(msg), tokcmd(toks)))
                exps.append(hx(fmt_expect([msg], toks)))
                infos.append((len(toks) > 1, msg, toks))
                cmds.append('s ' + tokcmd(toks))
                exps.append(hx(', '.join(map(tok_text, toks))))
                infos.append((len(toks) > 1, None, toks))
            got = batch(exe, cmds, 60)
            for c, g, e, (nt, f, toks) in zip(cmds, got, exps, infos):
                ctx.case((name, c), nt, dict(format=f, tokens=toks, text=show(e)))
                if g != e and len(ctx.violations) < 3:
                    ctx.violation('format %r with tokens %r gives %s, expected %s' % (f, toks, show(g), show(e)),
                                  dict(module='checks_build', cpp=src, flags=fl, cmd=c, expected=e))
            if ctx.violations:
                return
    finally:
        P.close()


# ---------------------------------------------------------------- C21
TXT = ['a', 'Z', '7', ' ', '-', '"', '\\', '\'', '?', '%', '\t', '\n', 'é', 'ß', '日', '本', '\U0001F600', 'e\u0301', '\u200d', '{', '}', 'hello', 'long-name',
       'µ', '=', '\u00a0', '\U0010FFFF', '\x7f', '\x01']
INTS = [('std::int8_t', -128, 127), ('std::uint8_t', 0, 255), ('short', -32768, 32767), ('unsigned short', 0, 65535),
        ('int', -2**31, 2**31 - 1), ('unsigned', 0, 2**32 - 1), ('long', -2**63, 2**63 - 1), ('unsigned long', 0, 2**64 - 1),
        ('long long', -2**63, 2**63 - 1), ('unsigned long long', 0, 2**64 - 1)]


def text(rng, mx=8):
    return ''.join(rng.choice(TXT) for _ in range(rng.randint(0, mx)))


def cint(v, ty):
    if v == -2**63:
        return 'static_cast<%s>(-9223372036854775807LL - 1)' % ty
    if v > 2**63 - 1:
        return 'static_cast<%s>(%dULL)' % (ty, v)
    return 'static_cast<%s>(%dLL)' % (ty, v)


def ints(rng):
    ty, lo, hi = rng.choice(INTS)
    v = rng.choice([lo, hi, lo + 1, hi - 1, 0, 1, 9, 10, 11, 99, 100, 101, 10**rng.randint(0, 19), 10**rng.randint(0, 19) - 1,
                    -10**rng.randint(0, 18), -9, -10, -1, rng.randint(lo, hi), rng.randint(lo, hi) // 10**rng.randint(0, 15)])
    return ty, min(hi, max(lo, v)), lo, hi


LONGS = ['name', 'al', 'verbose-output', 'naïve', '日本', 'x1', 'longer-name', 'ÅÄ', 'e\u0301e', '\U0001F1F8\U0001F1EA\U0001F1E9\U0001F1EA']
SHORTS = ['a', 'Z', 'é', '日', 'e\u0301', 'ß', '3', '\U0001F1F8\U0001F1EA']
DESCS = ['does it', 'A description, with: punctuation (and more)!', 'zwei Wörter', '日本語の説明', 'ab', 'x' * 70]

NODES = r'''
template <typename N> static std::string names()
{
    std::string o;
    if constexpr (ar::traits::has_long_name_method_v<N>) o += " L" + hexs(N::long_name());
    if constexpr (ar::traits::has_short_name_method_v<N>) o += " S" + hexs(N::short_name());
    if constexpr (ar::traits::has_none_name_method_v<N>) o += " N" + hexs(N::none_name());
    if constexpr (ar::traits::has_display_name_method_v<N>) o += " P" + hexs(N::display_name());
    if constexpr (ar::traits::has_description_method_v<N>) o += " D" + hexs(N::description());
    return o;
}
template <typename N> static std::string node(const N& n)
{
    auto o = names<N>();
    if constexpr (ar::traits::has_runtime_enabled_method_v<N>) o += " E" + std::to_string(n.runtime_enabled());
    if constexpr (ar::traits::has_minimum_value_method_v<N>) o += " m" + std::to_string(n.minimum_value());
    if constexpr (ar::traits::has_maximum_value_method_v<N>) o += " M" + std::to_string(n.maximum_value());
    if constexpr (ar::traits::has_minimum_count_method_v<N>) o += " c" + std::to_string(n.minimum_count());
    if constexpr (ar::traits::has_maximum_count_method_v<N>) o += " C" + std::to_string(n.maximum_count());
    ar::utility::tuple_iterator([&](auto, const auto& c) { o += " [" + node(c) + " ]"; }, n.children());
    return o;
}
'''


def interleave(rng, strings, others):
    """strings keep their order, anywhere among the others"""
    slots = [0] * len(strings) + [1] * len(others)
    rng.shuffle(slots)
    si, oi = iter(strings), iter(others)
    return [next(si) if s == 0 else next(oi) for s in slots]


def gen_node(rng, depth=0):
    """-> (C++ expression, expected dump)"""
    k = rng.choice(['flag', 'arg', 'cflag', 'pos', 'fwd', 'marg', 'help'] + (['mode'] * 3 if depth == 0 else []))
    A = lambda s: 'AR_STRING(%s){}' % lit(s)
    exp = {}
    others = []

    def minmax():
        a, b = sorted([rng.randint(-50, 50), rng.randint(-50, 50)])
        others.append('arp::min_max_value<%d, %d>()' % (a, b))    # the run-time form has no observable bounds
        exp['m'], exp['M'] = a, b

    def enable(p=.4):
        if rng.random() < p:
            v = rng.randint(0, 1)
            others.append('arp::runtime_enable(%s)' % ('true' if v else 'false'))
            exp['E'] = v
    if k in ('flag', 'arg', 'cflag', 'marg', 'help'):
        strs = []
        which = rng.choice(['L', 'S', 'LS', 'LD', 'LSD', 'LSD'])
        if 'L' in which:
            strs.append(('L', rng.choice(LONGS)))
        if 'D' in which:
            strs.append(('D', rng.choice(DESCS)))
        if 'S' in which:
            strs.insert(rng.randint(0, len(strs)), ('S', rng.choice(SHORTS)))
        for a, b in strs:
            exp[a] = b
        strs = [b for a, b in strs]
        if k != 'help':
            enable()
        if k == 'flag':
            head = 'ar::flag('
            exp['c'] = exp['C'] = 0
        elif k == 'cflag':
            head = 'ar::counting_flag<%s>(' % rng.choice(['int', 'unsigned char', 'long'])
            exp['c'] = exp['C'] = 0
            if rng.random() < .5:
                minmax()
        elif k == 'arg':
            head = 'ar::arg<int>('
            exp['c'] = exp['C'] = 1
            others.append(rng.choice(['arp::required', 'arp::default_value{3}']))
            if rng.random() < .5:
                minmax()
            if rng.random() < .3:
                others.append("arp::value_separator<'='>")
        elif k == 'marg':
            head = 'ar::multi_arg<std::vector<int>>('
            others.append('arp::required')
            exp['c'], exp['C'] = 1, 2**64 - 1
            w = rng.randint(0, 2)
            if w == 1:
                a, b = sorted([rng.randint(1, 5), rng.randint(2, 5)])
                others.append('arp::min_max_count<%d, %d>' % (a, b))
                exp['c'], exp['C'] = a, b
            elif w == 2:
                a = rng.randint(1, 5)
                others.append('arp::min_count<%d>' % a)
                exp['c'] = a
        else:
            head = 'ar::help('
            exp['c'], exp['C'] = 0, 2**64 - 1
            if rng.random() < .4:
                others.append('arp::flatten_help')
            if rng.random() < .4:
                others.append('arp::program_name<AR_STRING("prog")>')
    elif k == 'pos':
        head = 'ar::positional_arg<std::vector<int>>('
        others.append('arp::required')
        a, b = sorted([rng.randint(1, 5), rng.randint(1, 5)])
        others.append('arp::min_max_count<%d, %d>' % (a, b))
        exp['c'], exp['C'] = a, b
        strs = [rng.choice(LONGS + SHORTS)]
        exp['P'] = strs[0]
        if rng.random() < .6:
            strs.append(rng.choice(DESCS + SHORTS))
            exp['D'] = strs[1]
        enable()
    elif k == 'fwd':
        head = 'ar::forwarding_arg('
        strs = [rng.choice(LONGS)]
        exp['N'] = strs[0]
        others.append('arp::required')
        exp['c'], exp['C'] = 0, 2**64 - 1
        if rng.random() < .6:
            strs.append(rng.choice(DESCS))
            exp['D'] = strs[1]
        enable()
    else:
        head = 'ar::mode('
        strs, kids = [], []
        if rng.random() < .8:
            strs = [rng.choice(LONGS)]
            exp['N'] = strs[0]
            if rng.random() < .6:
                strs.append(rng.choice(DESCS + SHORTS))
                exp['D'] = strs[1]
        enable()
        for _ in range(rng.randint(1, 3)):
            e, d = gen_node(rng, 1)
            others.append(e)
            kids.append(d)
        others.append('arp::router{[](auto...) {}}')
    order = 'LSNPDEmMcC'
    d = ''.join(' %s%s' % (c, hx(exp[c]) if c in 'LSNPD' else exp[c]) for c in order if c in exp)
    if k == 'mode':
        d += ''.join(' [%s ]' % x for x in kids)
    return head + ', '.join(interleave(rng, [A(s) for s in strs], others)) + ')', d


def C21(ctx):
    ctx.rule = ('generated string literals and integers as template arguments in both compile-time string implementations, and '
                'node factory calls with strings and policies interleaved; oracle: the same operation on ordinary strings, '
                'decimal conversion, and the documented mapping rules; non-trivial: multi-byte or escaped content, an '
                'integer of at least two digits, or two strings in one factory call')
    tus = 6 if ctx.quick else 30
    ns, ni, nn = (14, 40, 26) if ctx.quick else (40, 90, 60)
    items, metas = {}, {}
    for t in range(tus):
        rng = ctx.rng('tu', t)
        s17 = t % 2 == 1
        body, meta = '', []

        def add(code, exp, nt, info):
            nonlocal body
            body += 'table["k%d"] = [](std::istream&) -> std::string { %s };\n' % (len(meta), code)
            meta.append((exp, nt, info))
        for _ in range(ns):
            a, b, c = text(rng), text(rng), text(rng, 3)
            A, B, Cc = ('AR_STRING(%s)' % lit(x) for x in (a, b, c))
            nt = any(ord(ch) > 126 or ch in '"\\?' for ch in a + b)
            blen = lambda s: len(s.encode())
            add('using A = %s; return hexs(A::get()) + " " + std::to_string(A::size()) + " " + std::to_string(A::empty());' % A,
                '%s %d %d' % (hx(a), blen(a), not a), nt, ('literal', a))
            add('using A = %s; using B = %s; using C = %s; auto r = A{} + B{} + C{}; using D = typename A::template append_t<B>; '
                'return hexs(decltype(r)::get()) + " " + std::to_string(r.size()) + " " + hexs(D::get()) + " " + std::to_string(D::empty());' % (A, B, Cc),
                '%s %d %s %d' % (hx(a + b + c), blen(a + b + c), hx(a + b), not (a + b)), nt, ('concatenate', a, b, c))
            cut = rng.randint(0, len(a))
            x, y = a[:cut], a[cut:]
            add('using A = std::decay_t<decltype(AR_STRING(%s){} + AR_STRING(%s){})>; return std::to_string(std::is_same_v<A, %s>) + '
                'std::to_string(std::is_same_v<%s, %s>);' % (lit(x), lit(y), A, A, B), '%d%d' % (1 if a and not s17 or s17 else 1, a == b), nt,
                ('identity', x, y, b)) if a else None
            if not s17:
                # declared from something else than a literal: the same string, so the same type
                arr = 'std::array<char, %d>{%s}' % (blen(a), ', '.join("'\\x%02x'" % z for z in a.encode()))
                for how, decl in (('array', arr), ('null-terminated array', arr[:-1].replace(', %d>' % blen(a), ', %d>' % (blen(a) + 1)) + (', ' if a else '') + "'\\0'}"),
                                  ('span', 'std::span{Arr}')):
                    add('static constexpr auto Arr = %s; using A = ar::str<%s>; return hexs(A::get()) + " " + std::to_string(A::size()) + " " + '
                        'std::to_string(A::empty()) + std::to_string(std::is_same_v<A, AR_STRING(%s)>) + std::to_string(std::is_same_v<A, ar::str<%s>>) + '
                        'std::to_string(std::is_same_v<A, %s>) + hexs(decltype(A{} + AR_STRING("x"){})::get());' % (arr, decl, lit(a), lit(a), B),
                        '%s %d %d11%d%s' % (hx(a), blen(a), not a, a == b, hx(a + 'x')), nt, (how, a, b))
            if not s17 and blen(a) > 1:
                n = blen(a)
                p = rng.randrange(n - 1)
                q = rng.randrange(n - p)
                add('using A = %s; using R = std::decay_t<decltype(A::template substr<%d, %d>())>; return hexs(R::get()) + " " + std::to_string(R::size());' % (A, p, q),
                    '%s %d' % (hx(a.encode()[p:p + q]), q), nt, ('substr', a, p, q))
            n = rng.choice([0, 1, 2, 7, 40])
            ch = rng.choice("aZ -=")
            add("using R = ar::utility::create_sequence_cts_t<%d, '%s'>; return hexs(R::get()) + \" \" + std::to_string(R::size());" % (n, ch),
                '%s %d' % (hx(ch * n), n), n > 1, ('sequence', n, ch))
            add("return std::to_string(std::is_same_v<ar::utility::create_sequence_cts_t<%d, '%s'>, AR_STRING(%s)>);" % (n, ch, lit(ch * n)), '1', n > 1, ('sequence type', n, ch))
        for _ in range(ni):
            ty, v, lo, hi = ints(rng)
            c = cint(v, ty)
            add('return hexs(ar::utility::convert_integral_to_cts_t<%s>::get());' % c, hx(str(v)), abs(v) > 9, ('integer', ty, v))
            add('return std::to_string(std::is_same_v<ar::utility::convert_integral_to_cts_t<%s>, AR_STRING("%d")>);' % (c, v), '1', abs(v) > 9, ('integer type', ty, v))
            if v != lo or lo == 0:
                add('return std::to_string(+ar::math::num_digits(%s)) + " " + (ar::math::abs(%s) == %s ? "1" : "0");' % (c, c, cint(abs(v), ty)),
                    '%d 1' % len(str(abs(v))), abs(v) > 9, ('digits', ty, v))
            base, e = rng.choice([(10, rng.randint(0, 19)), (2, rng.randint(0, 63)), (3, rng.randint(0, 40)), (1, 9), (7, rng.randint(0, 22))])
            add('return std::to_string(ar::math::pow<%dULL>(%dULL));' % (base, e), str(base**e), e > 1, ('pow', base, e))
        for _ in range(nn):
            e, d = gen_node(rng)
            add('return node(%s);' % e, d, e.count('AR_STRING') > 1, ('node', e))
        src = '#include <deque>\n' + SERVER + NODES + 'static void fill()\n{\n' + body + '}\n'
        items['s%d' % t] = (src, S17 if s17 else [])
        metas['s%d' % t] = meta
    P = Progs(ctx)
    try:
        exes = P.compile(items)
        for name, exe in exes.items():
            src, fl = items[name]
            if isinstance(exe, CompileError):
                ctx.violation('valid compile-time strings do not compile: ' + exe.text[:1500],
                              dict(module='checks_build', cpp=src, flags=fl))
                return
            cmds = ['k%d' % i for i in range(len(metas[name]))]
            got = batch(exe, cmds, 60)
            for c, g, (e, nt, info) in zip(cmds, got, metas[name]):
                ctx.case(info, nt, dict(case=info, value=show(e)))
                ctx.cls(info[0])
                if g != e and len(ctx.violations) < 3:
                    ctx.violation('%s: %r gives %s, expected %s' % ('C++17 strings' if fl else 'C++20 strings', info, show(g), show(e)),
                                  dict(module='checks_build', cpp=src, flags=fl, cmd=c, expected=e))
            if ctx.violations:
                return
    finally:
        P.close()


CHECKS = dict(C15=C15, C21=C21)
TECH = dict(
    C15='generated formats, translators and token lists; oracle: a reference formatter over the parts of the format',
    C21='generated literals, integers and factory calls instantiated in both string implementations; oracle: ordinary string '
        'operations and the documented mapping rules')
