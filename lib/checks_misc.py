"""Checks driven by byte-decoded histories: the token view (C25), type-erased values and results (C26)."""
import os
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

from srv import CXX, HERE, REPO, CompileError, batch, compile_cmd

SAN = ['-g1', '-O1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all']
FLAGS = ['-std=c++20', '-w', '-I' + REPO + '/include', '-I' + HERE + '/cpp', '-ferror-limit=5']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=1', UBSAN_OPTIONS='print_stacktrace=0')


def build(d, name, variants):
    """variants: {exe name: flags} -> {exe name: path}"""
    def one(kv):
        out = '%s/%s' % (d, kv[0])
        compile_cmd([CXX] + FLAGS + kv[1] + ['%s/cpp/%s_main.cpp' % (HERE, name), '-o', out])
        return kv[0], out
    with ThreadPoolExecutor(4) as ex:
        return dict(ex.map(one, variants.items()))


def good(r):
    return r.startswith('ok')


def run_many(exe, cmds, timeout=100):
    if len(cmds) < 64:
        return batch(exe, cmds, timeout, mem=None, env=ENV)
    k = (len(cmds) + 7) // 8
    parts = [cmds[i:i + k] for i in range(0, len(cmds), k)]
    with ThreadPoolExecutor(8) as ex:
        return sum(ex.map(lambda p: batch(exe, p, timeout, mem=None, env=ENV), parts), [])


def shrink(exe, data):
    """shortest, then smallest byte string that still fails"""
    cur = bytes(data)

    def fails(cands):
        return [not good(r) and r != 'NOTRUN' for r in
                sum((batch(exe, ['x' + c.hex()], 20, mem=None, env=ENV) for c in cands), [])]
    chunk = max(1, len(cur) // 2)
    used = 0
    while chunk and used < 400:
        cands = [cur[:i] + cur[i + chunk:] for i in range(0, len(cur), chunk)]
        used += len(cands)
        hit = [c for c, f in zip(cands, fails(cands)) if f]
        if hit:
            cur = hit[0]
            chunk = min(chunk, max(1, len(cur) // 2))
        else:
            chunk //= 2
    i = 0
    while i < len(cur) and used < 900:
        cands = [cur[:i] + bytes([v]) + cur[i + 1:] for v in (0, 1, cur[i] // 2, cur[i] - 1) if 0 <= v < cur[i]]
        used += len(cands)
        hit = [c for c, f in zip(cands, fails(cands)) if f] if cands else []
        if hit:
            cur = hit[0]
        else:
            i += 1
    return cur


def histories(ctx, name, n, lengths, nontrivial, variants):
    d = tempfile.mkdtemp(prefix='arv_m')
    try:
        try:
            exes = build(d, name, variants)
        except CompileError as e:
            ctx.violation('the harness of %s does not compile against the headers: %s' % (name, e.text[:600]),
                          dict(module='checks_misc', name=name, kind='build', flags=list(variants.values())[0]))
            return
        for vi, (vn, exe) in enumerate(exes.items()):
            rng = ctx.rng('hist', vn)
            done = 0
            while done < n and not ctx.late():
                k = min(4000, n - done)
                data = []
                for _ in range(k):
                    ln = rng.choice(lengths)
                    if rng.random() < .5:
                        b = bytes(rng.randrange(256) for _ in range(ln))
                    else:       # few distinct bytes: repeated operations on the same places
                        al = [rng.randrange(256) for _ in range(rng.randint(2, 6))]
                        b = bytes([rng.randrange(256)]) + bytes(rng.choice(al) for _ in range(ln))
                    data.append(b)
                done += k
                res = run_many(exe, ['x' + b.hex() for b in data])
                for b, r in zip(data, res):
                    if r == 'NOTRUN':
                        ctx.cls('not-run-after-crashes')
                        continue
                    if good(r):
                        w = r.split()
                        for c in w[2:]:
                            ctx.cls(c)
                        ctx.case((vn, b), nontrivial(int(w[1]), w[2:]), dict(history=b.hex(), variant=vn, met=r))
                    else:
                        ctx.case((vn, b), False)
                        if len(ctx.violations) < 2:
                            s = shrink(exe, b)
                            r2 = batch(exe, ['x' + s.hex()], 20, mem=None, env=ENV)[0]
                            ctx.violation('%s: history %s (%s): %s' % (name, s.hex(), vn, r2[:1200]),
                                          dict(module='checks_misc', name=name, kind='history', data=s.hex(), flags=variants[vn]))
                        else:
                            ctx.cls('further-failures')
                if ctx.violations:
                    return
    finally:
        shutil.rmtree(d, ignore_errors=True)


def replay(d):
    t = tempfile.mkdtemp(prefix='arv_m')
    try:
        try:
            exe = build(t, d['name'], dict(r=d['flags']))['r']
        except CompileError as e:
            print('does not compile:\n' + e.text[:3000])
            return 1
        if d['kind'] == 'build':
            print('compiles now')
            return 0
        r = batch(exe, ['x' + d['data']], 20, mem=None, env=ENV)[0]
        print(r)
        return 0 if good(r) else 1
    finally:
        shutil.rmtree(t, ignore_errors=True)


def C25(ctx):
    ctx.rule = ('byte strings decoded into histories of insert/erase/transfer/set/iterate on a token view, compared after '
                'every operation with a list and a boundary index; non-trivial: at least five operations, one of which '
                'moved the boundary across unprocessed tokens')
    n = 6000 if ctx.quick else 400000
    histories(ctx, 'tokens', n, (6, 12, 30, 70, 150), lambda ops, cl: ops >= 5 and 'crossed' in cl,
              dict(san=SAN))


def C26(ctx):
    ctx.rule = ('byte strings decoded into histories of put/copy/move/assign/swap/destroy on unsafe_any (three storage sizes, '
                'nineteen value types), result, parse_target and compile_time_optional, compared after every operation '
                'with plain values, a count of live objects and the heap balance; non-trivial: at least five operations '
                'with a copy or move among them')
    n = 8000 if ctx.quick else 500000
    histories(ctx, 'any', n, (6, 12, 30, 70, 150, 250),
              lambda ops, cl: ops >= 5 and any('copy' in c or 'move' in c or 'assign' in c or 'invoke' in c for c in cl),
              dict(san=SAN))


CHECKS = dict(C25=C25, C26=C26)
TECH = dict(
    C25='stateful: generated operation histories on the token view under sanitizers; oracle: a list with a boundary index',
    C26='stateful: generated histories over type-erased values, results and parse targets under sanitizers; oracle: plain '
        'values, object counts and heap balance')
