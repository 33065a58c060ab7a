"""Multi-language roots (C22) and the translation generator (C23)."""
import os
import random
import re
import shutil
import subprocess
import tempfile
from concurrent.futures import ThreadPoolExecutor

from checks_build import CODES, fmt_of, fmt_expect, fmt_text, lit
from engine import TreeCheck, same, dec, shrink_argv
from gen import Cfg, TreeGen
from model import Model
from srv import HERE, REPO, CompileError, Build, batch, cmdF
from tree import Emit, cpp_str

LANGS = ['en', 'en_GB', 'en_US', 'EN', 'fr', 'fr_CA', 'ja', 'zh_Hant_TW', 'de-DE', 'C', 'POSIX', 'sr_RS@latin', 'x', 'pt.UTF', '日本', 'en_gb', 'e', 'de_DE']
MCODE = dict(no_arguments='no_arguments_passed', already_set='argument_has_already_been_set', min_value='minimum_value_not_reached', max_value='maximum_value_exceeded',
             min_count='minimum_count_not_reached', max_count='maximum_count_exceeded', suggest='unknown_argument_with_suggestion',
             mode_requires='mode_requires_arguments', missing_required='missing_required_argument',
             too_few_alias='too_few_values_for_alias', dependent='dependent_argument_missing',
             one_of='one_of_selected_type_mismatch', missing_sep='missing_value_separator')
SYL = ['ka', 'lo', 'mi', 'tür', 'né', 'os', 'ß', '日本', 'x-', 'un', 'été', 'qu', 've', 'r', '語']
SH = list('bcdefgjklmnopqrstuvwxyzBCDEFGKMNPQRSTUVWXYZ') + ['é', 'ß', '日', 'ä', 'ø']
DESC = ['zeigt Dinge an', 'ウィジェットを表示する', 'Affiche tout, sans exception (ou presque)', 'does something else', 'et cetera']
PFX = ['n', 'l', 's']


def strings_of(root):
    out = []

    def add(s):
        if s is not None and s not in out:
            out.append(s)
    for n in root.walk():
        for a in ('long', 'short', 'none', 'disp', 'desc', 'err'):
            add(getattr(n, a))
        for refs in (n.alias, n.deps):
            for _, s in refs or []:
                add(s)
        for v in (n.pre or {}).values():
            add(v)
    return out


def translate(rng, strs, keep):
    """an injective translation; one-character names stay one character"""
    used, out = set(), {}
    for s in strs:
        while True:
            if rng.random() < keep:
                t = s
            elif len(s) == 1:
                t = rng.choice(SH)
            elif ' ' in s:
                t = rng.choice(DESC) + ' ' + str(rng.randint(1, 99))
            else:
                t = ''.join(rng.choice(SYL) for _ in range(rng.randint(2, 4))).strip('-')
            if t not in used and (len(t) == 1) == (len(s) == 1) and len(t):
                break
            keep *= .8
        used.add(t)
        out[s] = t
    return out


def mapped(root, m):
    t = root.clone()
    for n in t.walk():
        for a in ('long', 'short', 'none', 'disp', 'desc', 'err'):
            v = getattr(n, a)
            if v is not None:
                setattr(n, a, m[v])
        for a in ('alias', 'deps'):
            v = getattr(n, a)
            if v:
                setattr(n, a, [(k, m[s]) for k, s in v])
        if n.pre:
            n.pre = {k: m[v] for k, v in n.pre.items()}
    t.bits = root.bits
    for i, n in enumerate(t.walk()):
        n.nid = i
    return t


class LangEmit(Emit):
    """refers to the members of the translation instead of literals"""

    def __init__(self, names, cpp17, wrap=None):
        Emit.__init__(self, cpp17)
        self.names, self.wrap = names, wrap

    def ref(self, s):
        if self.wrap is not None:
            return 'SM_(I, %s)' % ', '.join(cpp_str(m[s]) for m in self.wrap)
        return 'typename tr::s%d' % self.names.index(s)

    def lit(self, s):
        return self.ref(s) + '{}' if s in self.names else Emit.lit(self, s)

    def ty(self, s):
        return self.ref(s) if s in self.names else Emit.ty(self, s)

    def namepol(self, pol, s, alt):
        return 'arp::%s_t{%s}' % (pol, self.lit(s))


class LangModel(Model):
    def __init__(self, root, mask, table):
        Model.__init__(self, root, mask)
        self.table = table

    def message(self, e):
        text = Model.message(self, e)
        parts = self.table.get(MCODE.get(e.code, e.code))
        if parts is None:
            return text
        return fmt_expect(parts, [(PFX[p], s) for p, s in e.toks])


def table_src(name, table, strs, lt):
    o = 'public:\n'
    for i, s in enumerate(strs):
        o += '    using s%d = %s;\n' % (i, lt(s))
    if table is not None:
        o += '    using error_code_translations = std::tuple<%s>;\n' % ', '.join(
            'std::pair<ar::traits::integral_constant<ar::error_code::%s>, %s>' % (c, lt(fmt_text(p))) for c, p in table.items())
    return 'class %s {\n%s};\n' % (name, o)


def gen_lang(rng, cfg, s17, wrapper):
    root = TreeGen(rng, cfg).tree()
    strs = strings_of(root)
    n = rng.choice([2, 2, 3, 3, 4])
    ids = rng.sample(LANGS, n)
    maps = [translate(rng, strs, rng.choice([.05, .3, .7])) for _ in ids]
    tables = []
    for _ in ids:
        k = 0 if wrapper else rng.choice([0, 3, 8, len(CODES)])
        tables.append({c: fmt_of(rng) for c in rng.sample(sorted(CODES), k)} if k else {})
    return dict(root=root, strs=strs, ids=ids, maps=maps, tables=tables, trees=[mapped(root, m) for m in maps], s17=s17, wrapper=wrapper,
                variants=not wrapper)


def emit(g):
    root, strs, ids, s17 = g['root'], g['strs'], g['ids'], g['s17']
    lt = (lambda s: 'S_(%s)' % lit(s)) if s17 else (lambda s: 'ar::str<%s>' % lit(s))
    r = root.clone()
    r.extra = None
    if g['wrapper']:
        body = LangEmit(strs, s17, g['maps']).node(r)
        src = '''
template <typename R>
struct ImplW : IRoot {
    R r;
    explicit ImplW(R x) : r{std::move(x)} {}
    void parse(int, std::vector<std::string>& v) override
    {
        std::vector<char*> p;
        std::string prog = "program";
        p.push_back(prog.data());
        for (auto& s : v) p.push_back(s.data());
        p.push_back(nullptr);
        r.parse(int(p.size() - 1), p.data());
    }
    std::string help() override
    {
        auto s = r.help();
        std::ostringstream o;
        r.help(o);
        return o.str() == std::string{s.begin(), s.end()} ? o.str() : "help() and help(stream) differ";
    }
    IRoot* clone() const override { return nullptr; }
};
'''
        ml = '''static auto make_ml([[maybe_unused]] unsigned en) {
  return ar::multi_lang::root_wrapper<%s>(rt::lang, [=]([[maybe_unused]] auto I) {
  return %s; });
}
''' % (', '.join(lt(i) for i in ids), body)
        impl = 'ImplW'
    else:
        src = 'namespace arg_router::multi_lang {\n'
        for i, m, t in zip(ids, g['maps'], g['tables']):
            src += 'template <> ' + table_src('translation<%s>' % lt(i), t or None, [m[s] for s in strs], lt)
        src += '}\n'
        body = LangEmit(strs, s17).node(r)
        if any(g['tables']):
            body = body.replace('ar::root(', 'ar::root(arp::exception_translator<tr>, ', 1)
        ml = '''static auto make_ml([[maybe_unused]] unsigned en) {
  return ar::multi_lang::root<%s>(rt::lang, [=](auto t_) {
  using tr [[maybe_unused]] = std::decay_t<decltype(t_)>;
  return %s; });
}
''' % (', '.join(lt(i) for i in ids), body)
        impl = 'Impl'
    direct = ''
    for k, (t, tab) in enumerate(zip(g['trees'], g['tables'])):
        e = Emit(s17)
        b = e.node(t)
        if tab:
            direct += table_src('Table%d' % k, tab, [], lt)
            b = b.replace('ar::root(', 'ar::root(arp::exception_translator<Table%d>, ' % k, 1)
        direct += 'static auto make_%d([[maybe_unused]] unsigned en) {\n  return %s;\n}\n' % (k, b)
    sw = ''.join('    if (rt::lang == "=%d") return new Impl<decltype(make_%d(en))>{make_%d(en)};\n' % (k, k, k) for k in range(len(ids)))
    return src + ml + direct + 'IRoot* make_root(unsigned en) {\n%s    return new %s<decltype(make_ml(en))>{make_ml(en)};\n}\n' % (sw, impl)


def request(rng, ids):
    x = rng.random()
    i = rng.choice(ids)
    if x < .5:
        return i
    return rng.choice(['', i[:-1], i + '_', i + ' ', i.lower(), i.upper(), i.swapcase(), i.replace('_', '-'), i + '.UTF-8', ' ' + i, i + '\0',
                       i[:2], i.split('_')[0], rng.choice(LANGS), '*', 'xx_YY', i * 2])


def hx(s):
    return 'x' + (s if isinstance(s, bytes) else s.encode()).hex()


def norm_locale(s):
    return s.split('.')[0].replace('-', '_')


def C22(ctx):
    ctx.rule = ('generated trees, 2-4 language ids with a translation of every string and partial error tables, requested languages (ids, '
                'near misses, anything), command lines in the selected or in another language, all parse overloads; oracle: the reference '
                'model on the translated tree with the error table applied, and a single-language root written in that language (also for '
                'the help text); plus locale names against their documented normalisation. Non-trivial: the selected language is not the '
                'first, or the request is a near miss, or the answer is an error text')
    base = dict(maxch=4, desc=.5, help=.6, err_name=.1, lists=.05, modes=.35, depth=1)
    plan = []
    q = ctx.quick
    for i in range(12 if q else 90):
        mode = ('20', '17', '20', 'w')[i % 4]
        plan.append((i, mode))
    builds = dict()
    done = 0
    try:
        builds['20'] = Build(['-DRT_VARIANTS', '-DRT_HELP'])
        builds['17'] = Build(['-DRT_VARIANTS', '-DRT_HELP'] + ['-DAR_DISABLE_CPP20_STRINGS=true'])
        for b in builds.values():
            b.prepare()
        gs = {}
        for i, mode in plan:
            gs[i] = gen_lang(ctx.rng('tree', i), Cfg(**base), mode != '20', mode == 'w')

        def comp(i):
            b = builds['17' if gs[i]['s17'] else '20']
            try:
                return i, b.compile_tu('l%d' % i, emit(gs[i]))
            except CompileError as e:
                return i, e
        for st in range(0, len(plan), 24):
            if st and ctx.late():
                break
            with ThreadPoolExecutor(8) as ex:
                exes = list(ex.map(comp, [i for i, _ in plan[st:st + 24]]))
            for i, exe in exes:
                g = gs[i]
                fl = builds['17' if g['s17'] else '20'].flags
                if isinstance(exe, CompileError):
                    if len(ctx.violations) < 2:
                        ctx.violation('a well-formed multi-language root does not compile: ' + exe.text[:1200],
                                      dict(module='checks_lang', kind='lang', cpp=emit(g), flags=fl))
                    continue
                one(ctx, i, g, exe, fl, 220 if q else 900)
                os.unlink(exe)
                done += 1
        locales(ctx, builds['20'], 1500 if q else 20000)
    finally:
        for b in builds.values():
            b.close()
    ctx.extra['trees'] = done


def one(ctx, i, g, exe, fl, ncases):
    tc = TreeCheck.__new__(TreeCheck)
    tc.lp, tc.sp = '--', '-'
    rng = ctx.rng('cases', i)
    n = len(g['ids'])
    jobs, cmds = [], []
    pools = [tc.cases(t, ctx.rng('argv', i, k), ncases // n + 5, .55, .3) for k, t in enumerate(g['trees'])]
    for _ in range(ncases):
        req = request(rng, g['ids'])
        sel = g['ids'].index(req) if req in g['ids'] else 0
        src = sel if rng.random() < .8 else rng.randrange(n)
        _, mask, argv, _ = rng.choice(pools[src])
        how = 1 if g['wrapper'] else rng.randrange(6)
        exp = LangModel(g['trees'][sel], mask, g['tables'][sel]).expect(argv)
        jobs.append((req, sel, mask, argv, how, exp))
        cmds += ['L ' + hx(req), cmdF(mask, argv, how), 'L ' + hx('=%d' % sel), cmdF(mask, argv, 1 if g['wrapper'] else how)]
    hj = []
    for _ in range(8):
        req = request(rng, g['ids'])
        sel = g['ids'].index(req) if req in g['ids'] else 0
        mask = rng.randrange(1 << g['root'].bits)
        hj.append((req, sel, mask))
        cmds += ['L ' + hx(req), 'H %d' % mask, 'L ' + hx('=%d' % sel), 'H %d' % mask]
    out = batch(exe, cmds, 120)
    got = list(zip(out[1::4], out[3::4]))
    for (req, sel, mask, argv, how, exp), (a, b) in zip(jobs, got):
        nt = sel > 0 or (req not in g['ids'] and req != '') or exp[:2] == 'EX'
        ctx.case((i, req, mask, argv, how), nt, dict(languages=g['ids'], request=req, argv=argv, outcome=dec(exp)))
        ctx.cls(('exact' if req in g['ids'] else 'fallback') + (':wrapper' if g['wrapper'] else '') + ':' + exp[:2])
        if a == 'NOTRUN':
            continue
        if not same(a, exp) or a != b:
            if len(ctx.violations) < 2:
                def ask(c):
                    o = batch(exe, ['L ' + hx(req), cmdF(mask, c, how), 'L ' + hx('=%d' % sel), cmdF(mask, c, how)])
                    e = LangModel(g['trees'][sel], mask, g['tables'][sel]).expect(c)
                    return o[1], o[3], e, not same(o[1], e) or o[1] != o[3]
                if not ask(argv)[3]:
                    ctx.cls('unconfirmed')
                    continue
                argv = shrink_argv(argv, lambda cs: [ask(c)[3] for c in cs], 150)
                a, b, exp, _ = ask(argv)
                ctx.violation('languages %r, requested %r, argv %r: got %s, a single-language root gives %s, expected %s' % (
                    g['ids'], req, argv, dec(a), dec(b), dec(exp)),
                    dict(module='checks_lang', kind='lang', cpp=emit(g), flags=fl, cmds=['L ' + hx(req), cmdF(mask, argv, how)], expected=exp))
    for (req, sel, mask), (a, b) in zip(hj, got[len(jobs):]):
        ctx.case((i, req, mask, 'help'), True)
        ctx.cls('help')
        if a != b and len(ctx.violations) < 2:
            ctx.violation('languages %r, requested %r: help %r, a single-language root gives %r' % (g['ids'], req, a, b),
                          dict(module='checks_lang', kind='lang', cpp=emit(g), flags=fl, cmds=['L ' + hx(req), 'H %d' % mask], expected=b))


def locales(ctx, b, count):
    exe = b.compile_tu('loc', 'IRoot* make_root(unsigned) { return nullptr; }\n')
    rng = ctx.rng('locale')
    atoms = ['en', 'GB', '_', '-', '.', 'UTF-8', '@euro', 'C', 'zh', 'Hant', ' ', 'é', '..', '--', '\0', 'x' * 40, '.1252', 'English', 'United Kingdom']
    ins = [''.join(rng.choice(atoms) for _ in range(rng.randint(0, 6))) for _ in range(count)]
    out = batch(exe, ['I ' + hx(s) for s in ins])
    for s, o in zip(ins, out):
        e = hx(norm_locale(s))
        ctx.case(('locale', s), '.' in s or '-' in s, None)
        ctx.cls('locale')
        if o != e and len(ctx.violations) < 3:
            ctx.violation('iso_locale(%r) gives %r, expected %r' % (s, o, e),
                          dict(module='checks_lang', kind='lang', cpp='IRoot* make_root(unsigned) { return nullptr; }\n', flags=b.flags,
                               cmds=['I ' + hx(s)], expected=e))


def replay(d):
    b = Build(d['flags'])
    try:
        b.prepare()
        try:
            exe = b.compile_tu('replay', d['cpp'])
        except CompileError as e:
            print('does not compile:\n' + e.text[:3000])
            return 1
        if 'cmds' not in d:
            print('compiles now')
            return 0
        g = batch(exe, d['cmds'])[-1]
        print('got', dec(g))
        print('expected', dec(d['expected']))
        return 0 if same(g, d['expected']) else 1
    finally:
        b.close()


CHECKS = dict(C22=C22)
TECH = dict(
    C22='generated multi-language roots, requests and command lines; oracle: the reference model on the translated tree and a '
        'single-language root compiled beside it')
