"""C29: concurrent use of one root."""
import os
import time

from checks_tree import W, cfg, nt
from engine import TreeCheck, dec, removable, tree_load, tree_repr
from srv import CXX, Build, CompileError, batch, enc_args, run

FLAGS = ['-fsanitize=thread', '-DRT_MT', '-g1']


def flags():
    """without ThreadSanitizer where it cannot run at all (some address space layouts); outcomes are still compared"""
    import shutil
    import tempfile
    d = tempfile.mkdtemp(prefix='arv_')
    try:
        with open(d + '/t.cpp', 'w') as f:
            f.write('#include <thread>\nint main() { std::thread t{[] {}}; t.join(); }\n')
        rc, o, e = run([CXX, '-fsanitize=thread', d + '/t.cpp', '-o', d + '/t'], 100)
        if rc == 0:
            rc, o, e = run([d + '/t'], 60, env=TSAN)
        return FLAGS if rc == 0 else FLAGS[1:] + ['-pthread']
    finally:
        shutil.rmtree(d, ignore_errors=True)
TSAN = dict(os.environ, TSAN_OPTIONS='halt_on_error=1 exitcode=66 report_thread_leaks=0 die_after_fork=0')


def cmd(mask, threads, rounds, ops):
    return 'T %d %d %d %s' % (mask, threads, rounds, ';'.join('H' if a is None else 'P %d %s' % (how, enc_args(a)) for a, how in ops))


def bad(g):
    return not g.startswith('SAME') and g != 'NOTRUN'


def attempt(exe, mask, threads, rounds, ops, tries=3):
    """a process of its own each time, as only the first use of anything may be the racing one"""
    g = 'NOTRUN'
    for _ in range(tries):
        g = batch(exe, [cmd(mask, threads, rounds, ops)], 120, mem=None, env=TSAN)[0]
        if bad(g):
            break
    return g


def C29(ctx):
    ctx.rule = ('parse calls with different lines and help generations made at the same time by 2 to 6 threads on one root under '
                'ThreadSanitizer, then one after another on fresh roots; non-trivial: at least two different operations, one of them accepted')
    fl = flags()
    ctx.extra['thread_sanitizer'] = fl is FLAGS
    c = TreeCheck(ctx, flags=fl, variants=True, help_=True)
    c.b.mainsrc = 'mt_main.cpp'
    profs = [('m', cfg(modes=.4, maxch=4, rootleaf=.4, help=.4, enable=.15, w=W(flag=3, cflag=3, arg=3, marg=2, pos=2, fwd=1, oneof=3, agroup=2)),
              nt(ctx, 14, 200)),
             ('p', cfg(modes=0, maxch=4, rootleaf=0, w=W(arg=4, marg=3, pos=3, oneof=2)), nt(ctx, 10, 120))]
    try:
        for tag, p, cnt in profs:
            left = c.trees(p, cnt, tag)
            while left and not (ctx.late() and ctx.evals) and len(ctx.violations) < 3:
                part = {k: left.pop(k) for k in list(left)[:16]}
                for name, exe in c.compile(part).items():
                    one(ctx, c, name, part[name], exe)
                    os.unlink(exe)
    finally:
        c.close()
    ctx.assumptions += ['the routers and custom parsers of the tree do not share state themselves',
                        'a run-time switch is set before the root is made, never during a parse']


def one(ctx, c, name, t, exe):
    r = ctx.rng('conc', name)
    jobs = []
    for _ in range(nt(ctx, 10, 40)):
        mask = (1 << t.bits) - 1 if r.random() < .7 else (r.randrange(1 << t.bits) if t.bits else 0)
        pool = [x[2] for x in c.cases(t, r, 8, .65, .25)]
        if not pool:
            continue
        ops = []
        for _k in range(r.randint(2, 8)):
            ops.append((None, 0) if r.random() < .15 else (r.choice(pool), r.choice([0, 0, 0, 0, 1, 2, 3, 4, 5])))
        jobs.append((mask, r.choice([2, 2, 3, 4, 6]), r.choice([1, 2, 4]), ops))
    # the first jobs get a process of their own
    got = [batch(exe, [cmd(*j)], 120, mem=None, env=TSAN)[0] for j in jobs[:2]]
    got += batch(exe, [cmd(*j) for j in jobs[2:]], 200, mem=None, env=TSAN, maxcrash=2)
    worst = None
    for j, g in zip(jobs, got):
        if g == 'NOTRUN':
            continue
        kinds = g.split()[1:] if g.startswith('SAME') else []
        nontriv = 'OK' in kinds and len({str(o) for o in j[3]}) > 1
        ctx.case((name, str(j)), nontriv, dict(tree=name, threads=j[1], ops=[o[0] or 'help' for o in j[3]], outcomes=kinds) if nontriv else None)
        ctx.cls('threads:%d' % j[1])
        for k in kinds:
            ctx.cls('op:' + k)
        if bad(g):
            ctx.cls('mismatches')
            worst = worst or (j, g)
    if worst and len(ctx.violations) < 3:
        report(ctx, c, t, exe, *worst)


def report(ctx, c, t, exe, j, g):
    mask, threads, rounds, ops = j
    g = attempt(exe, *j)
    if not bad(g):
        # it needs more of a chance
        rounds = 20
        g = attempt(exe, mask, threads, rounds, ops, 8)
        if not bad(g):
            ctx.cls('unconfirmed')
            ctx.log('not reproducible: %r' % (j,))
            return
    t_end = min(time.time() + c.shrinkdl, ctx.t0 + 780)
    changed = True
    while changed and time.time() < t_end:
        changed = False
        cands = [(2, ops)] if threads > 2 else []
        cands += [(threads, ops[:i] + ops[i + 1:]) for i in range(len(ops)) if len(ops) > 1]
        for i, (a, how) in enumerate(ops):
            if a:
                cands += [(threads, ops[:i] + [(a[:k] + a[k + 1:], how)] + ops[i + 1:]) for k in range(len(a))]
            if how:
                cands.append((threads, ops[:i] + [(a, 0)] + ops[i + 1:]))
        for n, o in cands:
            if time.time() > t_end:
                break
            g2 = attempt(exe, mask, n, rounds, o, 2)
            if bad(g2):
                threads, ops, g, changed = n, o, g2, True
                break
    cur, cexe = t, exe
    k = 0
    while time.time() < t_end and k < 6:
        k += 1
        names = {'mshr%d_%d' % (k, i): x for i, x in enumerate(removable(cur)[:16])}
        hit = None
        for nm, x in c.b.compile_many({a: c.emit(b) for a, b in names.items()}).items():
            if isinstance(x, CompileError):
                continue
            if hit is None and time.time() < t_end:
                g2 = attempt(x, mask, threads, rounds, ops, 2)
                if bad(g2):
                    hit, g = (names[nm], x), g2
        if not hit:
            break
        cur, cexe = hit
    rc, o, e = run([cexe], 120, (cmd(mask, threads, rounds, ops) + '\n').encode(), env=TSAN)
    rep = e.decode('utf-8', 'replace')
    head = [l.strip() for l in rep.split('\n') if 'WARNING' in l or 'SUMMARY' in l]
    ctx.violation('%d threads, operations %r: %s' % (threads, [a if a is not None else 'help' for a, _ in ops],
                                                     ' '.join(head) or dec(g)[:300]),
                  dict(module='checks_conc', cpp=c.emit(cur), tree=tree_repr(cur), mask=mask, threads=threads, rounds=rounds,
                       ops=ops, got=g, report=rep[:8000]))


def replay(d):
    b = Build(flags() + ['-DRT_VARIANTS', '-DRT_HELP'], main='mt_main.cpp')
    try:
        b.prepare()
        exe = b.compile_tu('replay', d['cpp'])
        rc, o, e = 0, b'', b''
        for _ in range(10):
            rc, o, e = run([exe], 120, (cmd(d['mask'], d['threads'], d['rounds'], d['ops']) + '\n').encode(), env=TSAN)
            if rc or not o.startswith(b'SAME'):
                break
        print(o.decode('utf-8', 'replace'))
        print(e.decode('utf-8', 'replace')[:4000])
        return 1 if rc or not o.startswith(b'SAME') else 0
    finally:
        b.close()


CHECKS = dict(C29=C29)
TECH = dict(C29='property-based testing: generated operations on one root by several threads at once under ThreadSanitizer; oracle: the same operations one after another')
