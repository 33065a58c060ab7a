"""Arbitrary bytes: sanitized builds of generated trees and of the text utilities, random and coverage-guided."""
import os
import re
import shutil
import subprocess
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from checks_text import H, raw_bytes, scalar, words
from checks_tree import cfg, nt, W
from engine import TreeCheck, dec, shrink_argv, tree_repr
from gen import vocab
from srv import CXX, HERE, JOBS, REPO, CompileError, batch, cmdF, compile_cmd, run

SAN = ['-O1', '-g1', '-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all',
       '-fno-omit-frame-pointer', '-DRT_VARIANTS', '-DRT_EXACT']
BAD = [b'\xff', b'\xc3', b'\xe6\x97', b'\xf0\x9f\x98', b'\x80', b'\xbf\xbf', b'\xc0\x80', b'\xed\xa0\x80', b'\xf4\x90\x80\x80',
       b'\xf8\x88\x80\x80\x80', b'\xfe\xff', b'\xe0\x80\xaf', b'\xef\xbb\xbf', b'\n', b'\x01', b'\x7f', b'\t', b'\r\n']
# boost::lexical_cast multiplies promoted unsigned shorts beyond int: not the library's arithmetic
IGNORE = '[undefined]\nsrc:/usr/include/boost/*\n'
HOWS = [0, 0, 1, 2, 3, 4, 5, 6, 6, 6, 6, 6]
INTERESTING = re.compile(rb'ERROR: AddressSanitizer[^\n]*|ERROR: LeakSanitizer[^\n]*|runtime error:[^\n]*|'
                         rb'Assertion [^\n]*|terminate called[^\n]*|libFuzzer: [^\n]*')


def env(leaks=True):
    e = dict(os.environ)
    sup = 'abort_on_error=0:detect_leaks=%d:detect_stack_use_after_return=1:strict_string_checks=1:' \
          'allocator_may_return_null=0:symbolize=0:exitcode=66' % leaks
    e.update(ASAN_OPTIONS=sup, UBSAN_OPTIONS='print_stacktrace=0:symbolize=0', LSAN_OPTIONS='report_objects=0')
    return e


def leak_checker_works():
    """LeakSanitizer has to be able to stop the process's threads; not every sandbox lets it"""
    d = tempfile.mkdtemp(prefix='arv_l')
    try:
        with open(d + '/l.cpp', 'w') as f:
            f.write('#include <cstdlib>\n#include <sanitizer/lsan_interface.h>\nvoid* volatile p;\n'
                    'int main(int c, char**) { p = std::malloc(77 + c); p = nullptr; '
                    'return __lsan_do_recoverable_leak_check() ? 5 : 6; }\n')
        try:
            compile_cmd([CXX, '-O0', '-fsanitize=address', d + '/l.cpp', '-o', d + '/l'])
            rc, _, e = run([d + '/l'], 60, env=env())
            return rc != 0 and b'detected memory leaks' in e
        except (CompileError, RuntimeError):
            return False
    finally:
        shutil.rmtree(d, ignore_errors=True)


def corrupt(r, t):
    """one byte-level edit of a token"""
    t = bytearray(t)
    k = r.random()
    p = r.randint(0, len(t))
    if k < .3:
        t[p:p] = r.choice(BAD)
    elif k < .45:
        t[p:p] = raw_bytes(r)
    elif k < .6 and t:
        t[p % len(t)] = r.randrange(256)
    elif k < .72 and t:
        del t[p % len(t)]
    elif k < .82:
        t = t[:p]
    elif k < .88:
        t[p:p] = b'\0'
    elif k < .93:
        t[p:p] = (bytes(t) or b'a') * r.choice([2, 3, 17, 40, 300])
    elif k < .96:
        t[p:p] = r.choice([b'a', b'\xcc\x81', b'\xe6', b'9', b'-', b'=', b'\xf0\x9f\x87\xa6']) * r.choice([16, 70, 400, 3000])
    else:
        t = bytearray(raw_bytes(r))
    return bytes(t[:20000])


def byte_line(r, argv, voc, shorts):
    a = [x.encode('utf-8', 'surrogateescape') for x in argv]
    vals = [i for i, x in enumerate(a) if x[:1] != b'-']
    if vals and r.random() < .35:
        i = r.choice(vals)
        a[i] = corrupt(r, a[i])
        return a
    for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
        k = r.random()
        i = r.randrange(len(a)) if a else 0
        if k < .7 and a:
            a[i] = corrupt(r, a[i])
        elif k < .8:
            a.insert(r.randint(0, len(a)), raw_bytes(r))
        elif k < .88:
            a.insert(r.randint(0, len(a)), r.choice([b'', b'-', b'--', b'---', b'-\xff', b'--\xe6', b'=', b'-=', b'--=', b'-\xf0\x9f']))
        elif k < .94 and voc:
            a.insert(r.randint(0, len(a)), corrupt(r, r.choice(voc).encode()))
        elif shorts:
            a.insert(r.randint(0, len(a)), corrupt(r, ('-' + ''.join(r.choice(shorts) for _ in range(r.randint(1, 5)))).encode()))
    if r.random() < .02:
        a = a + [r.choice(a) if a else b'x'] * r.choice([50, 400])
    return a


def odd(argv):
    for t in argv:
        try:
            if t.decode('utf-8').isascii() and len(t) < 64 and b'\0' not in t:
                continue
        except UnicodeDecodeError:
            pass
        return True
    return False


def bad(g):
    return g.startswith(('CRASH', 'HANG', 'LEAK')) or g == '??'


class Bytes:
    def __init__(self, ctx):
        self.ctx = ctx
        self.ign = tempfile.mktemp(prefix='arv_i')
        with open(self.ign, 'w') as f:
            f.write(IGNORE)
        self.c = TreeCheck(ctx, flags=SAN + ['-fsanitize-ignorelist=' + self.ign])
        self.leaks = leak_checker_works()
        ctx.extra['leak_detection'] = self.leaks
        self.env = env(self.leaks)

    def trees(self):
        ctx = self.ctx
        profs = [('mix', cfg(modes=.4, maxch=4, rootleaf=.4), nt(ctx, 5, 60)),
                 ('val', cfg(modes=0, maxch=5, rootleaf=0, cust=.3, w=W(arg=5, marg=3, pos=2, oneof=2)), nt(ctx, 4, 40)),
                 ('shr', cfg(modes=0, maxch=5, rootleaf=0, short=1, alias=.5, deps=.3, w=W(flag=4, cflag=3, arg=2, agroup=1, fwd=1)),
                  nt(ctx, 4, 40))]
        out = {}
        for tag, p, n in profs:
            out.update(self.c.trees(p, n, tag))
        return out

    def build(self, trees):
        """{name: (server, fuzzer)}"""
        b = self.c.b
        b.prepare()
        fm = b.dir + '/fuzz.o'
        if not os.path.exists(fm):
            compile_cmd([CXX] + b.base + b.flags + ['-include-pch', b.pch, '-c', HERE + '/cpp/fuzz_main.cpp', '-o', fm])

        def one(kv):
            name, t = kv
            cpp = '%s/%s.cpp' % (b.dir, name)
            with open(cpp, 'w') as f:
                f.write(self.c.emit(t))
            try:
                compile_cmd([CXX] + b.base + b.flags + ['-include-pch', b.pch, '-c', cpp, '-o', cpp[:-3] + 'o'])
            except CompileError as e:
                self.c.compile_violation(t, e)
                return name, None
            compile_cmd([CXX, '-fsanitize=address,undefined', b.main, cpp[:-3] + 'o', '-o', cpp[:-4]])
            compile_cmd([CXX, '-fsanitize=fuzzer,address,undefined', fm, cpp[:-3] + 'o', '-o', cpp[:-4] + '_fz'])
            os.unlink(cpp[:-3] + 'o')
            return name, (cpp[:-4], cpp[:-4] + '_fz')
        with ThreadPoolExecutor(JOBS) as ex:
            return {k: v for k, v in ex.map(one, trees.items()) if v}

    def run(self, exe, cmds, timeout=120, maxcrash=3):
        return batch(exe, cmds, timeout, mem=None, env=self.env, maxcrash=maxcrash)

    # ---- random lines
    def drive(self, name, t, exe):
        ctx = self.ctx
        r = ctx.rng('bytes', name)
        voc, shorts = vocab(t)
        cases = []
        for kind, mask, argv, _ in self.c.cases(t, r, nt(ctx, 300, 1500), .65, .2):
            for _k in range(2):
                cases.append((mask, r.choice(HOWS), byte_line(r, argv, voc, shorts)))
        cmds = [cmdF(m, a, h) for m, h, a in cases]
        order = list(range(len(cases)))
        r.shuffle(order)
        # every line twice, the second time in another order: the answer depends on nothing else
        got = self.run(exe, cmds + [cmds[i] for i in order] + (['K'] if self.leaks else []), nt(ctx, 150, 500))
        second = {i: g for i, g in zip(order, got[len(cases):])}
        for i, (m, h, a) in enumerate(cases):
            g = got[i]
            if g == 'NOTRUN':
                continue
            o = odd(a)
            ctx.case((name, m, h, a), o, dict(tree=name, overload=h, tokens=[x[:60].decode('latin-1') for x in a[:8]],
                                              outcome=dec(g)[:120]) if o else None)
            ctx.cls('outcome:' + g[:2])
            ctx.cls('overload%d' % h)
            if bad(g) or bad(second[i]):
                self.crash(name, t, exe, m, h, a, g if bad(g) else second[i])
            elif second[i] != 'NOTRUN' and second[i] != g:
                ctx.cls('unstable')
                self.report(t, m, h, a, 'two answers for one line: %s and %s' % (dec(g), dec(second[i])))
        if self.leaks and len(got) > 2 * len(cases) and got[2 * len(cases)] == 'LEAK':
            self.leak(name, t, exe, cases)

    def crash(self, name, t, exe, m, h, a, g):
        if len(self.ctx.violations) >= 3:
            return

        def fails(cs):
            # one process per candidate: a report ends the process
            with ThreadPoolExecutor(JOBS) as ex:
                return list(ex.map(lambda c: bad(self.run(exe, [cmdF(m, c, h)], 30)[0]), cs))
        if not fails([a])[0]:
            self.ctx.cls('unconfirmed')
            return
        s = [x.decode('latin-1') for x in a]
        s = shrink_argv(s, lambda cs: fails([[x.encode('latin-1') for x in c] for c in cs]), 300, time.time() + 60)
        a = [x.encode('latin-1') for x in s]
        self.report(t, m, h, a, self.why(exe, cmdF(m, a, h)))

    def why(self, exe, cmd):
        rc, o, e = run([exe], 30, (cmd + '\n').encode(), env=self.env)
        x = [y.decode('utf-8', 'replace') for y in INTERESTING.findall(e)]
        return 'does not return' if rc is None else 'process ended with %s: %s' % (rc, ' / '.join(x[:2])[:400])

    def report(self, t, m, h, a, why):
        if len(self.ctx.violations) >= 3:
            return
        self.ctx.violation('tokens %s (overload %d): %s' % ([x[:200] for x in a], h, why),
                           dict(kind='bytes', module='checks_bytes', tree=tree_repr(t), cpp=self.c.emit(t), mask=m, how=h,
                                cmd=cmdF(m, a, h), argv=[x.hex() for x in a], got=why))

    def leak(self, name, t, exe, cases):
        """find one line that leaks on its own"""
        if len(self.ctx.violations) >= 3:
            return

        def leaks(cs):
            return self.run(exe, [cmdF(m, a, h) for m, h, a in cs] + ['K'], 100)[-1] == 'LEAK'
        cur = cases
        while len(cur) > 1:
            half = len(cur) // 2
            if leaks(cur[:half]):
                cur = cur[:half]
            elif leaks(cur[half:]):
                cur = cur[half:]
            else:
                break
        if not leaks(cur):
            self.ctx.cls('unconfirmed')
            return
        m, h, a = cur[0]
        s = [x.decode('latin-1') for x in a]
        enc = lambda c: [x.encode('latin-1') for x in c]
        if len(cur) == 1:
            s = shrink_argv(s, lambda cs: [leaks([(m, h, enc(c))]) for c in cs], 60, time.time() + 40)
        self.report(t, m, h, enc(s), 'memory is leaked')

    # ---- coverage guided
    def fuzz(self, exe, runs, seconds, seed, words_, corpus, maxlen):
        """-> (executions, new units, artifact bytes or None, text)"""
        d = tempfile.mkdtemp(prefix='fz_', dir=self.c.b.dir)
        try:
            os.makedirs(d + '/c')
            os.makedirs(d + '/a')
            for i, x in enumerate(corpus):
                with open('%s/c/%d' % (d, i), 'wb') as f:
                    f.write(x)
            with open(d + '/dict', 'w') as f:
                for w in sorted(set(words_)):
                    f.write('"%s"\n' % ''.join('\\x%02x' % b for b in w))
            cmd = [exe, d + '/c', '-runs=%d' % runs, '-max_total_time=%d' % seconds, '-seed=%d' % seed, '-max_len=%d' % maxlen,
                   '-dict=' + d + '/dict', '-artifact_prefix=' + d + '/a/', '-print_final_stats=1', '-timeout=20',
                   '-rss_limit_mb=3000', '-verbosity=0', '-detect_leaks=%d' % (1 if self.leaks else 0), '-len_control=20']
            rc, o, e = run(cmd, seconds + 120, env=self.env, cwd=d)
            st = dict(re.findall(rb'stat::(\w+):\s+(\d+)', e))
            n, u = int(st.get(b'number_of_executed_units', 0)), int(st.get(b'new_units_added', 0))
            arts = sorted(os.listdir(d + '/a'))
            art = None
            if arts:
                with open(d + '/a/' + arts[0], 'rb') as f:
                    art = f.read()
                if not arts[0].startswith(('crash', 'leak', 'timeout', 'oom')):
                    art = None
            if rc != 0 and art is None and rc is not None:
                self.ctx.cls('fuzzer-ended-early')
            txt = ' / '.join(x.decode('utf-8', 'replace') for x in INTERESTING.findall(e)[:2])[:400]
            return n, u, art, txt
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def fuzz_again(self, exe, x):
        """does the input still fail?"""
        p = tempfile.mktemp(dir=self.c.b.dir)
        with open(p, 'wb') as f:
            f.write(x)
        rc, o, e = run([exe, p, '-runs=1', '-timeout=20'], 60, env=self.env)
        os.unlink(p)
        return rc != 0

    def fuzz_tree(self, name, t, exe, fz, seconds):
        ctx = self.ctx
        r = ctx.rng('fuzz', name)
        voc, shorts = vocab(t)
        seeds = []
        for kind, mask, argv, _ in self.c.cases(t, r, 60, .7, .2):
            a = [x.encode('utf-8', 'surrogateescape') for x in argv]
            seeds.append(bytes([r.choice([0x80, 0x40, mask & 0x3F])]) + b'\x1f'.join(a))
        wd = [x.encode() for x in voc] + [b'\x1f', b'\x1f-', b'\x1f--'] + BAD
        n, u, art, txt = self.fuzz(fz, nt(ctx, 40000, 4000000), seconds, r.randrange(1, 2**31), wd, seeds, 200)
        with ctx.lock:
            ctx.cls('fuzz-tree-executions', n)
            ctx.cls('fuzz-tree-new-coverage', u)
        if art is None or len(ctx.violations) >= 3 or not self.fuzz_again(fz, art):
            return
        small = art
        t_end = time.time() + 60
        chunk = max(1, len(small) // 2)
        while chunk and time.time() < t_end:
            i = 1
            hit = False
            while i < len(small) and time.time() < t_end:
                y = small[:i] + small[i + chunk:]
                if self.fuzz_again(fz, y):
                    small, hit = y, True
                else:
                    i += chunk
            if not hit:
                chunk //= 2
        mask = (1 << t.bits) - 1 if small[0] & 0xC0 else small[0] & 0x3F
        a = small[1:].split(b'\x1f')
        self.report(t, mask, 6, [] if a == [b''] else a, 'found by coverage-guided fuzzing: ' + (txt or 'does not return'))


def text_part(ctx, B):
    """the text utilities alone, on exact allocations"""
    d = B.c.b.dir
    jobs = [[CXX, '-std=c++20', '-w', '-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-I' + REPO + '/include', HERE + '/cpp/text_main.cpp', '-o', d + '/text'],
            [CXX, '-std=c++20', '-w', '-O1', '-g1', '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all',
             '-I' + REPO + '/include', HERE + '/cpp/fuzz_text.cpp', '-o', d + '/text_fz']]
    with ThreadPoolExecutor(2) as ex:
        list(ex.map(compile_cmd, jobs))
    r = ctx.rng('text')
    items = []
    for _ in range(nt(ctx, 16000, 300000)):
        x = raw_bytes(r)
        if r.random() < .3:
            x = corrupt(r, words(r).encode('utf-8', 'surrogateescape')[:400])[:1200]
        k = r.choice(['cps', 'gcs', 'w', 'wrap', 'lev'])
        if k == 'wrap':
            items.append((x, 'wrap %d %s' % (r.choice([1, 2, 3, 5, 8, 20, 79]), H(x))))
        elif k == 'lev':
            y = corrupt(r, x) if r.random() < .5 else raw_bytes(r)
            items.append((x + y, 'lev %s %s' % (H(x[:300]), H(y[:300]))))
        else:
            items.append((x, k + ' ' + H(x)))
    k = (len(items) + 7) // 8
    parts = [items[i:i + k] for i in range(0, len(items), k)]

    def go(p):
        return batch(d + '/text', [c for _, c in p], nt(ctx, 200, 900), mem=None, env=B.env, maxcrash=3)
    with ThreadPoolExecutor(8) as ex:
        got = sum(ex.map(go, parts), [])
    for (x, c), g in zip(items, got):
        if g == 'NOTRUN':
            continue
        o = odd([x])
        ctx.case(c, o, dict(utility=c.split()[0], bytes=x[:60].decode('latin-1'), outcome=g[:100]) if o else None)
        ctx.cls('text:' + c.split()[0])
        if bad(g) or ' LOOP' in g or 'GAP' in g:
            if len(ctx.violations) < 3:
                toks = c.split()

                def fails(hexes):
                    cc = ' '.join(toks[:-len(hexes)] + hexes)
                    y = batch(d + '/text', [cc], 20, mem=None, env=B.env)[0]
                    return bad(y) or ' LOOP' in y or 'GAP' in y
                hx = [y for y in toks if y[0] == 'x']
                if not fails(hx):
                    ctx.cls('unconfirmed')
                    continue
                again = True
                t_end = time.time() + 40
                while again and time.time() < t_end:
                    again = False
                    for i, y in enumerate(hx):
                        for p in range(1, len(y), 2):
                            c2 = hx[:i] + [y[:p] + y[p + 2:]] + hx[i + 1:]
                            if fails(c2):
                                hx, again = c2, True
                                break
                        if again:
                            break
                cmd = ' '.join([y for y in toks if y[0] != 'x' or y == toks[0]] + hx)
                ctx.violation('text utility %s: %s' % (cmd, g[:300]),
                              dict(kind='bytes', module='checks_bytes', text=True, cmd=cmd, got=g[:2000]))
    return d + '/text_fz'


def C13(ctx):
    ctx.rule = ('lines and texts of arbitrary bytes (mutations of acceptable lines, raw bytes, truncated, overlong and '
                'invalid UTF-8, NUL, very long) on builds with AddressSanitizer, UndefinedBehaviorSanitizer and leak '
                'detection, every token in an allocation of its own size, through every parse() overload, plus libFuzzer on '
                'the same builds and on the text utilities; the call has to return or throw, twice with one answer; '
                'non-trivial: the line holds a non-ASCII, malformed, NUL or very long token')
    B = Bytes(ctx)
    try:
        with ThreadPoolExecutor(1) as ex:
            tx = ex.submit(text_part, ctx, B)
            trees = B.trees()
            names = list(trees)
            step = nt(ctx, 13, 16)
            tfz = None
            for i in range(0, len(names), step):
                if ctx.late() and ctx.evals:
                    ctx.cls('trees-skipped-late', len(names) - i)
                    break
                exes = B.build({k: trees[k] for k in names[i:i + step]})
                if tfz is None:
                    tfz = tx.result()
                with ThreadPoolExecutor(JOBS) as e2:
                    list(e2.map(lambda kv: B.drive(kv[0], trees[kv[0]], kv[1][0]), exes.items()))
                pick = list(exes.items())[:nt(ctx, 6, 16)]
                secs = nt(ctx, 20, 60)

                def textfz(k):
                    r = ctx.rng('tfz', i, k)
                    corpus = [bytes([r.randrange(1, 60), r.randrange(256)]) + words(r).encode('utf-8', 'surrogateescape')[:200]
                              for _ in range(40)]
                    return B.fuzz(tfz, nt(ctx, 60000, 2000000), secs, r.randrange(1, 2**31), BAD, corpus, 300)
                with ThreadPoolExecutor(JOBS) as e2:
                    fs = [e2.submit(textfz, k) for k in range(2)]
                    list(e2.map(lambda kv: B.fuzz_tree(kv[0], trees[kv[0]], kv[1][0], kv[1][1], secs), pick))
                    for f in fs:
                        n, u, art, txt = f.result()
                        ctx.cls('fuzz-text-executions', n)
                        ctx.cls('fuzz-text-new-coverage', u)
                        if art is not None and B.fuzz_again(tfz, art) and len(ctx.violations) < 3:
                            ctx.violation('text utilities, fuzzer input %r: %s' % (art[:200], txt or 'does not return'),
                                          dict(kind='bytes', module='checks_bytes', fuzz=art.hex(), got=txt))
                for s, f in exes.values():
                    os.unlink(s)
                    os.unlink(f)
                if len(ctx.violations) >= 3:
                    break
        ctx.extra['trees'] = len(names)
        ctx.assumptions += ['clang++ 18 -O1, libstdc++ with assertions, ASan+UBSan' +
                            (' with leak detection' if B.leaks else '; leak detection does not work in this sandbox')]
    finally:
        B.c.close()
        os.unlink(B.ign)


def replay(d):
    from core import Ctx
    if d.get('text') or d.get('fuzz'):
        t = tempfile.mkdtemp(prefix='arv_r')
        try:
            fz = bool(d.get('fuzz'))
            compile_cmd([CXX, '-std=c++20', '-w', '-O1', '-g1', '-fsanitize=%saddress,undefined' % ('fuzzer,' if fz else ''),
                         '-fno-sanitize-recover=all', '-I' + REPO + '/include',
                         HERE + ('/cpp/fuzz_text.cpp' if fz else '/cpp/text_main.cpp'), '-o', t + '/x'])
            if fz:
                with open(t + '/in', 'wb') as f:
                    f.write(bytes.fromhex(d['fuzz']))
                rc, o, e = run([t + '/x', t + '/in', '-timeout=20'], 60, env=env())
                print(e.decode('utf-8', 'replace')[:3000])
                return 0 if rc == 0 else 1
            g = batch(t + '/x', [d['cmd']], 60, mem=None, env=env())[0]
            print('got', g)
            return 1 if bad(g) or ' LOOP' in g or 'GAP' in g else 0
        finally:
            shutil.rmtree(t, ignore_errors=True)
    B = Bytes(Ctx('C13', 'quick', 1))
    b = B.c.b
    try:
        b.prepare()
        cpp = b.dir + '/replay.cpp'
        with open(cpp, 'w') as f:
            f.write(d['cpp'])
        compile_cmd([CXX] + b.base + b.flags + ['-include-pch', b.pch, '-c', cpp, '-o', cpp[:-3] + 'o'])
        compile_cmd([CXX, '-fsanitize=address,undefined', b.main, cpp[:-3] + 'o', '-o', cpp[:-4]])
        rc, o, e = run([cpp[:-4]], 60, (d['cmd'] + '\n' + d['cmd'] + '\nK\n').encode(), env=B.env)
        ls = o.decode('utf-8', 'replace').split('\n')
        print('answers', [dec(x) for x in ls], 'exit', rc)
        print(e.decode('utf-8', 'replace')[:3000])
        return 0 if rc == 0 and len(ls) == 4 and ls[0] == ls[1] and ls[2] == 'OK' else 1
    finally:
        b.close()
        os.unlink(B.ign)


CHECKS = dict(C13=C13)
TECH = dict(C13='coverage-guided fuzzing and structured random byte lines under ASan, UBSan and LSan')
