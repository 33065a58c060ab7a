"""The tree engine: generate trees, compile them, drive command lines, compare, shrink, report."""
import ast
import json
import os
import re
import time

from core import Ctx
from gen import Cfg, TreeGen, Intent, Unusable, vocab, mutate, soup, WORDS
from model import Model
from srv import Build, CompileError, batch, cmdF
from tree import Node, Emit, walk_parents

HELP = re.compile(r'\(s[0-9a-f]*\)')


def dec(x):
    """readable response"""
    if x[:3] in ('EX ', 'UE '):
        h, _, rest = x[3:].partition('|')
        try:
            return x[:3] + bytes.fromhex(h).decode('utf-8', 'replace') + ('|' + rest if rest else '')
        except ValueError:
            return x
    return x


def same(got, exp):
    if got == exp:
        return True
    if '?help' in exp:
        return HELP.sub('(?help)', got) == exp
    return False


# ---- tree (de)serialisation for replay files
def tree_repr(n):
    d = {k: getattr(n, k) for k in Node.DEF if k not in ('ch', 'alt') and getattr(n, k) != Node.DEF[k]}
    return repr((d, [ast.literal_eval(tree_repr(c)) for c in n.ch]))


def tree_load(s):
    def mk(t):
        d, ch = t
        n = Node(**d)
        n.ch = [mk(c) for c in ch]
        return n
    n = mk(ast.literal_eval(s))
    bits = [x.en for x in n.walk() if x.en is not None]
    n.bits = max(bits) + 1 if bits else 0
    return n


def bits_of(root):
    b = [x.en for x in root.walk() if x.en is not None]
    return max(b) + 1 if b else 0


# ---- shrinking
def shrink_argv(argv, fails, budget=400, t_end=None):
    """ddmin on tokens, then token simplification; fails(list of argv) -> list of bool"""
    cur = list(argv)
    used = 0
    t_end = t_end or time.time() + 100
    chunk = max(1, len(cur) // 2)
    while chunk >= 1 and used < budget and time.time() < t_end:
        cands = [cur[:i] + cur[i + chunk:] for i in range(0, len(cur), chunk)]
        used += len(cands)
        hit = [c for c, f in zip(cands, fails(cands)) if f] if cands else []
        if hit:
            cur = hit[0]
        elif chunk == 1:
            break
        else:
            chunk //= 2
    again = True
    while again and used < budget and time.time() < t_end:
        again = False
        cands = []
        for i, t in enumerate(cur):
            for r in ('1', 'a', t[:len(t) // 2], t[:-1], t[1:]):
                if r != t and len(r) <= len(t):
                    cands.append(cur[:i] + [r] + cur[i + 1:])
        used += len(cands)
        size = lambda a: (sum(map(len, a)), a)
        hit = sorted([c for c, f in zip(cands, fails(cands)) if f and size(c) < size(cur)], key=size)
        if hit:
            cur, again = hit[0], True
    return cur


def removable(root):
    """trees with one node (or policy) less that are still well formed"""
    out = []
    refs = set()
    for n in root.walk():
        for k in (n.alias or []) + (n.deps or []):
            refs.add(k)
    nodes = list(root.walk())
    for idx, n in enumerate(nodes):
        if n.k == 'root':
            continue
        par = [p for p in nodes if n in p.ch][0]
        own = set()
        for x in n.walk():
            if x.long:
                own.add(('L', x.long))
            if x.short:
                own.add(('S', x.short))
        inner = set()
        for x in n.walk():
            for k in (x.alias or []) + (x.deps or []):
                inner.add(k)
        if par.k in ('oneof', 'agroup'):
            continue
        if len(par.ch) == 1:
            continue
        if own & refs:
            continue
        c = root.clone()
        cn = list(c.walk())
        cp = cn[nodes.index(par)]
        cp.ch.remove(cn[idx])
        for x in cn:
            x.lists = None
        if not any(x.k == 'mode' and x.rid is not None for x in c.walk()) and \
                not any(x.rid is not None for x in c.ch):
            continue
        out.append(c)
    for idx, n in enumerate(nodes):
        for attr, val in (('deps', None), ('dflt', None), ('req', False), ('cust', None), ('desc', None)):
            if getattr(n, attr) not in (None, False):
                if n.k in ('oneof', 'agroup') and attr in ('dflt', 'req'):
                    continue
                if attr == 'cust' and n.vt in ('Pt', 'Col'):
                    continue
                c = root.clone()
                setattr(list(c.walk())[idx], attr, val)
                out.append(c)
    return out


class TreeCheck:
    mutops = range(15)
    """Runs generated command lines on generated trees against the reference model."""

    def __init__(self, ctx, flags=(), std=None, lp='--', sp='-', cpp17=False, variants=False, help_=False, cxx=None):
        self.ctx = ctx
        fl = list(flags)
        if variants:
            fl.append('-DRT_VARIANTS')
        if help_:
            fl.append('-DRT_HELP')
        self.flags = fl
        self.b = Build(fl, std, cxx=cxx)
        self.std, self.cxx = std, cxx
        self.lp, self.sp, self.cpp17 = lp, sp, cpp17
        self.maxviol = 3

    @property
    def shrinkdl(self):
        """seconds for shrinking: the first report gets the most"""
        return 30 if self.ctx.violations else 110

    def emit(self, t):
        return Emit(self.cpp17).tu(t)

    def close(self):
        self.b.close()

    def compile(self, trees):
        """{name: tree} -> {name: exe}; trees that do not compile are reported as violations"""
        res = self.b.compile_many({k: self.emit(t) for k, t in trees.items()})
        out = {}
        for k, v in res.items():
            if isinstance(v, CompileError):
                self.compile_violation(trees[k], v)
            else:
                out[k] = v
        return out

    def compile_violation(self, tree, err):
        if len(self.ctx.violations) >= self.maxviol:
            return
        src = self.emit(tree)
        again = self.b.syntax('again', src)
        if again is None:
            try:
                self.b.compile_tu('again2', src)
                return
            except CompileError as e:
                err = e
        t_end = min(time.time() + self.shrinkdl, self.ctx.t0 + 780)
        cur = tree
        while time.time() < t_end:
            from concurrent.futures import ThreadPoolExecutor
            cands = removable(cur)[:24]
            if not cands:
                break
            with ThreadPoolExecutor(8) as ex:
                r = list(ex.map(lambda ic: self.b.syntax('s%d' % ic[0], self.emit(ic[1])), enumerate(cands)))
            hit = [(c, e) for c, e in zip(cands, r) if e is not None]
            if not hit:
                break
            cur, text = min(hit, key=lambda x: len(self.emit(x[0])))
            err = CompileError(text)
        lines = [l for l in err.text.split('\n') if 'error' in l][:3]
        self.ctx.violation('a well-formed tree does not compile: ' + ' / '.join(l[:300] for l in lines),
                           dict(kind='compile', tree=tree_repr(cur), cpp=self.emit(cur), flags=self.flags,
                                prefixes=[self.lp, self.sp], cpp17=self.cpp17, std=self.std, cxx=self.cxx, diagnostics=err.text[:6000]))

    def expect(self, tree, mask, argv, cover=None):
        return Model(tree, mask, self.lp, self.sp, cover=cover).expect(argv)

    def fail(self, tree, exe, mask, argv, got, exp, why='outcome differs from the reference model', how=0):
        """confirm, shrink, report one model mismatch"""
        if len(self.ctx.violations) >= self.maxviol:
            return
        hang = got == 'HANG'
        to = 10 if hang else 40
        t_end = min(time.time() + self.shrinkdl, self.ctx.t0 + 780)
        for _ in range(1 if hang else 3):
            g = batch(exe, [cmdF(mask, argv, how)])[0]
            if same(g, exp):
                self.ctx.cls('unconfirmed')
                self.ctx.log('not reproducible: %r %s' % (argv, dec(got)))
                return

        def fails_on(t, x, cands):
            g = batch(x, [cmdF(mask, a, how) for a in cands], timeout=to, maxcrash=4 if hang else 40)
            return [not same(gg, self.expect(t, mask, a)) and gg != 'NOTRUN' for gg, a in zip(g, cands)]
        a = shrink_argv(argv, lambda cs: fails_on(tree, exe, cs), 400, t_end)
        if not same(batch(exe, [cmdF(mask, a, how)], timeout=to)[0], self.expect(tree, mask, a)):
            argv = a
        cur, cexe = tree, exe
        rounds = 0
        while time.time() < t_end and rounds < 8:
            rounds += 1
            cands = removable(cur)
            cands = cands[:24]
            if not cands:
                break
            names = {'shr%d_%d' % (rounds, i): c for i, c in enumerate(cands)}
            res = self.b.compile_many({k: self.emit(t) for k, t in names.items()})
            hit = []
            for k, x in res.items():
                if isinstance(x, CompileError):
                    continue
                if fails_on(names[k], x, [argv])[0]:
                    hit.append((len(self.emit(names[k])), k))
            if hit:
                k = min(hit)[1]
                cur, cexe = names[k], res[k]
            for k, x in res.items():
                if not isinstance(x, CompileError) and x != cexe and x != exe:
                    os.unlink(x)
            if not hit:
                break
        argv = shrink_argv(argv, lambda cs: fails_on(cur, cexe, cs), 100, t_end)
        got = batch(cexe, [cmdF(mask, argv, how)], timeout=to)[0]
        exp = self.expect(cur, mask, argv)
        self.ctx.violation('%s: argv=%r mask=%d got=%s expected=%s' % (why, argv, mask, dec(got), dec(exp)),
                           dict(kind='model', tree=tree_repr(cur), cpp=self.emit(cur), mask=mask, how=how,
                                argv=argv, got=dec(got), expected=dec(exp), flags=self.flags,
                                prefixes=[self.lp, self.sp], cpp17=self.cpp17, std=self.std, cxx=self.cxx))

    # ---- the generic loop
    def trees(self, profile, count, tag):
        out = {}
        i = 0
        while len(out) < count and i < count * 20:
            r = self.ctx.rng('tree', tag, i)
            t = TreeGen(r, profile).tree()
            i += 1
            if getattr(profile, 'accept', None) and not profile.accept(t):
                continue
            out['%s%d' % (tag, len(out))] = t
        return out

    def cases(self, tree, r, count, p_intent, p_mut):
        """-> list of (kind, mask, argv, intended response or None)"""
        voc, shorts = vocab(tree, self.lp, self.sp)
        out = []
        full = (1 << tree.bits) - 1
        seen = set()
        for _ in range(count):
            mask = full if not tree.bits or r.random() < 0.5 else r.randrange(1 << tree.bits)
            exp = None
            kind = 'intent'
            argv = None
            for _k in range(3):
                try:
                    argv, exp, _info = Intent(tree, r, mask, self.lp, self.sp).line()
                    break
                except Unusable:
                    argv = None
            x = r.random()
            if argv is None or x > p_intent:
                if argv is not None and x < p_intent + p_mut:
                    argv, kind = mutate(r, argv, voc, shorts, self.lp, self.sp, self.mutops), 'mutant'
                else:
                    argv, kind = soup(r, voc, shorts, self.lp, self.sp), 'soup'
                exp = None
            key = (mask, tuple(argv))
            if key in seen:
                continue
            seen.add(key)
            out.append((kind, mask, argv, exp))
        return out

    def judge(self, name, tree, exe, cases, focus):
        """runs cases [(kind,mask,argv,intended)], compares with the model, counts coverage"""
        got = batch(exe, [cmdF(m, a) for _, m, a, _ in cases])
        bad = []
        for (kind, mask, argv, intended), g in zip(cases, got):
            cov = set()
            exp = self.expect(tree, mask, argv, cov)
            if intended is not None and intended != exp:
                # the two oracles disagree: nothing can be concluded from this case
                self.ctx.cls('oracles-disagree')
                continue
            nt = focus(kind, cov, exp, argv)
            self.ctx.case((name, mask, argv), nt,
                          dict(tree=name, mask=mask, argv=argv, outcome=dec(exp)) if nt else None)
            self.ctx.cls(kind + ':' + exp[:2])
            if nt:
                for c in cov:
                    self.ctx.cls('cov:' + c)
            if g == 'NOTRUN':
                continue
            if not same(g, exp):
                bad.append((len(argv), mask, argv, g, exp))
        if bad:
            self.ctx.cls('mismatches', len(bad))
            _, mask, argv, g, exp = min(bad, key=lambda x: x[0])
            self.fail(tree, exe, mask, argv, g, exp)
        return bad

    def campaign(self, profiles, ncases, p_intent, p_mut, focus):
        """profiles: [(tag, Cfg, number of trees)]"""
        todo = []
        for tag, cfg, cnt in profiles:
            todo += list(self.trees(cfg, cnt, tag).items())
        done = 0
        step = 24
        for i in range(0, len(todo), step):
            if self.ctx.late() and done:
                self.ctx.cls('trees-skipped-late', len(todo) - i)
                break
            part = dict(todo[i:i + step])
            exes = self.compile(part)
            for k, exe in exes.items():
                t = part[k]
                self.judge(k, t, exe, self.cases(t, self.ctx.rng('cases', k), ncases, p_intent, p_mut), focus)
                os.unlink(exe)
                done += 1
            if len(self.ctx.violations) >= self.maxviol:
                break
        self.ctx.extra['trees'] = self.ctx.extra.get('trees', 0) + done
