"""C16: help output against a reference renderer."""
import os
import re
import time

import helpmodel
from checks_text import words
from checks_tree import W, cfg, nt
from engine import TreeCheck, bits_of, dec, removable, tree_repr
from gen import DESCS
from model import Err, Model
from srv import CompileError, batch, enc_args
from tree import value_type

ANSI = re.compile('\x1b\\[[0-9;]*m')


def dress(r, t):
    """descriptions, program texts and formatter of a tree"""
    for n in t.walk():
        if n.k in ('root', 'oneof', 'agroup') or (n.k == 'mode' and n.none is None):
            continue
        if r.random() < .75:
            d = r.choice(DESCS) if r.random() < .3 else words(r)
            n.desc = d if len(d) > 1 and d.strip() == d else 'Some text'
    h = [n for n in t.ch if n.k == 'help'][0]
    h.pre = {}
    if r.random() < .6:
        h.pre['name'] = r.choice(['prog', 'my-prog', '\u30d7\u30ed'])
        if r.random() < .6:
            h.pre['version'] = r.choice(['v1.2', '3.14', '1.0-\u00df'])
    if r.random() < .4:
        h.pre['intro'] = r.choice(['Does things.', 'A longer introduction, with commas', '\u7d39\u4ecb'])
    if r.random() < .4:
        h.pre['addendum'] = r.choice(['See also the manual.', '\u305d\u306e\u4ed6 notes'])
    h.fmt = r.choice([None, None, (4, 8, True), (2, 5, False), (1, 1, False), (3, 12, True), (4, 8, False)])
    if r.random() < .25:
        h.rid = None
    return t


def paths(t, lp, sp):
    """names leading to every node reachable by one"""
    out = []

    def go(n, p):
        for c in n.ch:
            for q in ([lp + c.long] if c.long is not None else []) + ([sp + c.short] if c.short is not None else []) + \
                    ([c.none] if c.none is not None else []):
                out.append(p + [q])
                go(c, p + [q])
    go(t, [])
    return out


def colour_ok(raw):
    """labels red, descriptions green, reset at the end of every line"""
    return raw.count('\x1b[31m') == raw.count('\x1b[0m') and raw.count('\x1b[32m') <= raw.count('\x1b[31m')


class Help:
    def __init__(self, ctx, tc):
        self.ctx, self.tc = ctx, tc

    def cmds(self, h, case):
        """a case -> server commands; the last one's response is judged"""
        mask, path, cols, how = case
        w = 'W %d' % cols
        if how == 'api':
            return [w, 'H %d' % mask]
        name = self.tc.lp + h.long if h.long is not None else self.tc.sp + h.short
        if h.rid is None:
            return [w, 'X %d %s' % (mask, enc_args([name] + path))]
        return [w, 'F %d 0 %s' % (mask, enc_args([name] + path))]

    def judge(self, t, case, g):
        """-> None if right, else (kind, got text, expected text)"""
        mask, path, cols, how = case
        h = [n for n in t.ch if n.k == 'help'][0]
        try:
            target = helpmodel.find(t, mask, path, self.tc.lp, self.tc.sp)
            exp = helpmodel.render(t, mask, h, target, cols, self.tc.lp, self.tc.sp)
        except Err as e:
            exp = None
            msg = Model(t, mask, self.tc.lp, self.tc.sp).message(e)
        if exp is None:
            want = 'EXIT 77 ' if h.rid is None else 'EX ' + msg.encode().hex()
        elif how == 'api':
            want = 'HE '
        elif h.rid is None:
            want = 'EXIT 0 '
        else:
            want = 'OK|r%d(s' % h.rid
        if exp is None:
            return None if g == want else (g, want)
        if not g.startswith(want):
            return (g, want + repr(exp))
        raw = bytes.fromhex(g[len(want):].rstrip(')')).decode('utf-8', 'replace')
        text = raw
        if helpmodel.fmt(h)[2]:
            if not colour_ok(raw):
                return (repr(raw), 'colours balanced')
            text = ANSI.sub('', raw)
        return None if text == exp else (text, exp)

    def run(self, t, exe, cases):
        h = [n for n in t.ch if n.k == 'help'][0]
        cmds = [c for case in cases for c in self.cmds(h, case)]
        return batch(exe, cmds)[1::2]

    def gen(self, t, r, count):
        ps = paths(t, self.tc.lp, self.tc.sp)
        full = (1 << t.bits) - 1
        h = [n for n in t.ch if n.k == 'help'][0]
        out = {}
        for _ in range(count):
            mask = full if not t.bits or r.random() < .4 else r.randrange(1 << t.bits)
            x = r.random()
            how = 'arg'
            if x < .3:
                path = []
                how = r.choice(['arg', 'api'])
            elif x < .85 and ps:
                path = list(r.choice(ps))
            elif ps:
                path = list(r.choice(ps))
                y = r.random()
                if y < .3:
                    path[-1] += 'x'
                elif y < .5:
                    path.append(r.choice(['nope', '--nope'] + r.choice(ps)))
                elif y < .7:
                    path = path[1:] or ['zz']
                else:
                    path = [r.choice(r.choice(ps)) for _ in range(r.randint(1, 3))]
            else:
                path = ['nope']
            flat = h.flat or bool(path)
            try:
                tn = helpmodel.find(t, mask, path, self.tc.lp, self.tc.sp)
                ind, off, _ = helpmodel.fmt(h)
                edge = helpmodel.column(tn, flat, self.tc.lp, self.tc.sp, ind) + off
            except Err:
                edge = 30
            cols = max(0, r.choice([0, 0, 20, 40, 80, 120, edge - 1, edge, edge + 1, edge + 4, edge + 9, edge + 25, 300]))
            out[(mask, tuple(path), cols, how)] = 1
        return [(m, list(p), c, w) for m, p, c, w in out]

    def fail(self, t, exe, case, bad):
        ctx = self.ctx
        again = self.judge(t, case, self.run(t, exe, [case])[0])
        if again is None:
            ctx.cls('unconfirmed')
            return
        cur, cexe = t, exe
        t_end = time.time() + (60 if not ctx.violations else 0)
        for rnd in range(8):
            if time.time() > t_end:
                break
            cands = [c for c in removable(cur)[:24] if any(n.k == 'help' for n in c.ch)]
            for c in cands:
                c.bits = bits_of(t)
            names = {'h%d_%d' % (rnd, i): c for i, c in enumerate(cands)}
            if not names:
                break
            res = self.tc.b.compile_many({k: self.tc.emit(c) for k, c in names.items()})
            hit = []
            for k, x in res.items():
                if isinstance(x, CompileError):
                    continue
                j = self.judge(names[k], case, self.run(names[k], x, [case])[0])
                if j is not None:
                    hit.append((len(self.tc.emit(names[k])), k))
            if not hit:
                break
            k = min(hit)[1]
            cur, cexe = names[k], res[k]
        bad = self.judge(cur, case, self.run(cur, cexe, [case])[0])
        h = [n for n in cur.ch if n.k == 'help'][0]
        ctx.violation('help output differs from the reference: mask=%d path=%r columns=%d via %s\n--- got\n%s\n--- expected\n%s' % (
            case[0], case[1], case[2], case[3], bad[0], bad[1]),
            dict(kind='help', tree=tree_repr(cur), cpp=self.tc.emit(cur), case=case, flags=self.tc.flags,
                 cmds=self.cmds(h, case), got=bad[0], expected=bad[1], prefixes=[self.tc.lp, self.tc.sp], cpp17=self.tc.cpp17,
                 std=self.tc.std, cxx=self.tc.cxx))


def helptrees(ctx, tc, profs):
    trees = {}
    for tag, c, n in profs:
        trees.update(tc.trees(c, n, tag))
    for k, t in trees.items():
        dress(ctx.rng('dress', k), t)
    return trees


def loop(ctx, tc, trees, count):
    """-> number of trees run"""
    hp = Help(ctx, tc)
    done = 0
    ks = list(trees)
    for i in range(0, len(ks), 24):
        if ctx.late() and done:
            break
        part = {k: trees[k] for k in ks[i:i + 24]}
        for k, exe in tc.compile(part).items():
            t = part[k]
            done += 1
            cases = hp.gen(t, ctx.rng('cases', k), count)
            for case, g in zip(cases, hp.run(t, exe, cases)):
                j = hp.judge(t, case, g)
                ntv = bool(case[1]) or g.count('0a') > 2
                ctx.case((k, case), ntv, dict(tree=k, case=case, outcome=dec(g)[:300]) if ntv else None)
                ctx.cls('help:' + ('path' if case[1] else 'root') + ('+width' if case[2] else '') + '+' + case[3] + ':' + g[:2])
                if j is not None:
                    ctx.cls('mismatches')
                    if len(ctx.violations) < 3:
                        hp.fail(t, exe, case, j)
            os.unlink(exe)
    return done


def wants_help(t):
    return any(n.k == 'help' for n in t.ch)


def C16(ctx):
    ctx.rule = ('help of generated trees (descriptions over many scripts, value bounds, counts, groups, nested modes, '
                'disabled nodes, program texts, formatters) for every path, through the router, the exit path and '
                'root.help(), at terminal widths around the wrapping limits, compared line by line with a reference '
                'renderer; non-trivial: at least two lines, or a path was given')
    tc = TreeCheck(ctx, help_=True)
    profs = [('mix', cfg(help=1, modes=.6, depth=2, maxch=3, rootleaf=.3, enable=.2, bounds=.5, group_bounds=.6, accept=wants_help), 6),
             ('flat', cfg(help=1, modes=0, maxch=6, rootleaf=.3, enable=.3, bounds=.5, accept=wants_help), 4),
             ('grp', cfg(help=1, modes=.2, maxch=3, rootleaf=0, enable=.4, bounds=.5, group_bounds=.7, accept=wants_help,
                         w=W(oneof=4, agroup=4, pos=1, marg=1)), 4)]
    try:
        trees = helptrees(ctx, tc, [(tag, c, nt(ctx, n, n * 12)) for tag, c, n in profs])
        ctx.extra['trees'] = loop(ctx, tc, trees, nt(ctx, 90, 400))
    finally:
        tc.close()
    ctx.assumptions += ['trees and texts as generated by lib/gen.py and lib/checks_help.py', 'the terminal is a stand-in for ioctl(TIOCGWINSZ)']


def replay_help(d):
    from engine import tree_load

    class C:
        pass
    tc = TreeCheck(C(), flags=d['flags'], std=d.get('std'), cxx=d.get('cxx'))
    tc.lp, tc.sp = d['prefixes']
    tc.cpp17 = d['cpp17']
    t = tree_load(d['tree'])
    try:
        tc.b.prepare()
        exe = tc.b.compile_tu('replay', tc.emit(t))
        g = batch(exe, d['cmds'])[-1]
        j = Help(None, tc).judge(t, d['case'], g)
        if j:
            print('got\n%s\nexpected\n%s' % j)
        return 1 if j else 0
    finally:
        tc.close()


CHECKS = dict(C16=C16)
TECH = dict(C16='generated trees, paths, masks and terminal widths; oracle: a reference renderer of help output')
