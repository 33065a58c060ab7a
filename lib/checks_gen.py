"""C23: the build-time translation generator."""
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

from checks_build import CODES, FLAGS, SERVER, lit
from srv import CXX, HERE, JOBS, REPO, CompileError, batch, compile_cmd, run

SCRIPT = REPO + '/cmake/translation_generator/translation_generator_script.cmake'
FUNC = REPO + '/cmake/translation_generator/translation_generator.cmake'
IDS = ['en', 'en_GB', 'zh-Hant', 'sr_RS@latin', 'pt.BR', 'x', '日本', 'a b', 'POSIX', 'de+1', 'C', 'e', 'n(1)', 'ñ', 'en_US']
# text in the file, the bytes it denotes
ATOMS = [(c, c) for c in 'abcXYZ019 .,:!?/*-+_<>()\'&%@~^|'] + [(s, s) for s in (
    'word', 'two words', 'é', 'ß', '日本語', '\U0001F1F8\U0001F1EA', 'e\u0301', '\u200d', '\u00a0', '\u3000', ';', ';;', 'a;b', '[', ']', '[[', ']]', '[error_code]',
    '[=[', ']=]', ' = ', '=', '#', '# ', '${key}', '${X}', '$', '@VAR@', '$ENV{PATH}', '$<1:x>', '//', '/*', '*/', '%s', '{}', '{, }', '{ }',
    'TRUE', 'OFF', 'line', '\t', '  ', 'R(', ')', 'S_(', '>', '>>', '??/', '??=', ',')] + [
    ('\\"', '"'), ('\\\\', '\\'), ('\\t', '\t'), ('\\n', '\n'), ('\\b', '\b'), ('\\f', '\f'), ('\\r', '\r'), ('\\u00e9', 'é'), ('\\u65E5', '日'),
    ('\\U0001F600', '\U0001F600'), ('\\\\n', '\\n'), ('\\\\\\"', '\\"'), ('\\\\;', '\\;')]
KEYS = ['line', 'key', 'value', 'remaining', 'header', 'footer', 'source', 'SOURCES', 'OUTPUT_DIR', 'output_data', 'ARGS_SOURCE', 'first_char',
        'language_id', 'midder', 'ON', 'OFF', 'N', 'Y', 'x', '_x', 'a1', 'help', 'help_description', 'error_codes', 'CMAKE_COMMAND', 'ARGN', 'ARGV0',
        'IGNORE', 'error_code_section', 'div_pos', 'STREQUAL', 'MATCHES', 'unknown_argument', 'pair', 'tuple', 'string']
COMMENTS = ['#', '# ', '# a comment', '# x = "y"', '#x = "y"', '# trailing \\', '# ; [ ]', '#[[', '# [error_code]', '#[error_code]', '# "', '# é日', '## = ']
MALFORMED = ['novalue', 'key="value"', 'key= "value"', 'key ="value"', '[section]', '"key"', '=', 'a=b', 'key "v"', ']', '[error_codes]', 'key\t=\t"v"', '\\']


def value(rng):
    while True:
        n = rng.choice([0, 1, 1, 2, 3, 5, 8, 14])
        a = [rng.choice(ATOMS) for _ in range(n)]
        src, val = ''.join(x for x, _ in a), ''.join(x for _, x in a)
        if len(val.encode()) <= 120:                       # the C++17 strings hold at most 127 characters
            return src, val


class File:
    def __init__(self, rng, name):
        self.name = name
        self.keys, self.codes, self.lines = [], [], []
        used = set()

        def noise():
            while rng.random() < .25:
                self.lines.append(rng.choice(COMMENTS) if rng.random() < .6 else '')

        def entry(key, dst):
            noise()
            src, val = value(rng)
            pad = ' ' * rng.choice([0, 0, 0, 1, 3])
            self.lines.append('%s = %s"%s"%s' % (key, pad, src, ' ' * rng.choice([0, 0, 0, 0, 2])))
            dst.append((key, val))
        for _ in range(rng.choice([0, 1, 2, 5, 12, 25])):
            k = rng.choice(KEYS) if rng.random() < .6 else 'k%d' % rng.randrange(1000)
            if k not in used:
                used.add(k)
                entry(k, self.keys)
        noise()
        self.section = rng.random() < .6
        if self.section:
            self.lines.append('[error_code]')
            for c in rng.sample(sorted(CODES), rng.choice([0, 1, 1, 2, 5, len(CODES)])):
                entry(c, self.codes)
            noise()
        nl = '\r\n' if rng.random() < .2 else '\n'
        t = nl.join(self.lines)
        if self.lines and rng.random() < .75:
            t += nl
        if rng.random() < .1:
            t = '\ufeff' + t
        self.text = t
        self.nt = any(re.search(r'[\\;\[\]$#]|=', l.split(' = ', 1)[-1]) for l in self.lines) or t[-1:] != '\n' or nl != '\n'


def generate(files, d):
    """writes the files and runs the generator on them; -> rc, stdout+stderr"""
    os.makedirs(d + '/in', exist_ok=True)
    ps = []
    for name, text in files:
        p = '%s/in/%s.toml' % (d, name)
        with open(p, 'wb') as f:
            f.write(text.encode())
        ps.append(p)
    rc, o, e = run(['cmake', '-DSOURCES=' + ';'.join(ps), '-DOUTPUT_DIR=%s/out' % d, '-P', SCRIPT], 60)
    return rc, (o + e).decode('utf-8', 'replace')


def program(d, files):
    src = SERVER.replace('#include <cstdio>', '#include <cstdio>\n#include <deque>\n' + ''.join('#include "%s/out/%s.hpp"\n' % (d, f.name) for f in files))
    src += '''
template <typename T> struct Tab { static std::string get() { return ""; } };
template <typename... C, typename... S> struct Tab<std::tuple<std::pair<C, S>...>> {
    static std::string get() { std::string o; ((o += " " + std::to_string(int(C::value)) + " " + hexs(S::get())), ...); return o; }
};
template <typename T, typename = void> struct HasTab { static std::string get() { return " none"; } };
template <typename T> struct HasTab<T, std::void_t<typename T::error_code_translations>> {
    static std::string get() { return " table" + Tab<typename T::error_code_translations>::get(); }
};
#ifdef AR_ENABLE_CPP20_STRINGS
#define LIT(x) ar::str<x>
#else
#define LIT(x) S_(x)
#endif
static void fill() {
'''
    for i, f in enumerate(files):
        body = ''.join('o += " " + hexs(T::%s::get());' % k for k, _ in f.keys)
        src += '    table["f%d"] = [](std::istream&) { using T [[maybe_unused]] = ar::multi_lang::translation<LIT(%s)>; std::string o; %s return o + HasTab<T>::get(); };\n' % (
            i, lit(f.name), body)
    return src + '}\n'


def hx(s):
    return 'x' + s.encode().hex()


def expected(f, order):
    o = ''.join(' ' + hx(v) for _, v in f.keys)
    if not f.section:
        return o + ' none'
    return o + ' table' + ''.join(' %d %s' % (order[c], hx(v)) for c, v in f.codes)


STDS = [('c++20', ['-std=c++20']), ('c++17', ['-std=c++17', '-I' + HERE + '/cpp/shim17']), ('c++20 with C++17 strings', ['-std=c++20', '-DAR_DISABLE_CPP20_STRINGS=true'])]


def code_values():
    """enumerator values, from the compiler"""
    t = tempfile.mkdtemp(prefix='arv_g')
    try:
        with open(t + '/a.cpp', 'w') as f:
            f.write('#include <arg_router/arg_router.hpp>\n#include <cstdio>\nint main() {' + ''.join(
                'std::printf("%%d\\n", int(arg_router::error_code::%s));' % c for c in sorted(CODES)) + '}')
        compile_cmd([CXX] + FLAGS + [t + '/a.cpp', '-o', t + '/a'])
        return dict(zip(sorted(CODES), map(int, run([t + '/a'], 20)[1].split())))
    finally:
        shutil.rmtree(t)


def judge(files, std, order):
    """-> list of (file, problem) for one program holding the files"""
    t = tempfile.mkdtemp(prefix='arv_g')
    try:
        rc, out = generate([(f.name, f.text) for f in files], t)
        if rc != 0:
            return [(None, 'the generator fails: ' + out[:600])]
        miss = [f for f in files if not os.path.exists('%s/out/%s.hpp' % (t, f.name))]
        if miss:
            return [(f, 'no header is written') for f in miss]
        with open(t + '/a.cpp', 'w') as f:
            f.write(program(t, files))
        try:
            compile_cmd([CXX] + FLAGS + STDS[std][1] + [t + '/a.cpp', '-o', t + '/a'])
        except CompileError as e:
            return [(None, 'the header does not compile: ' + e.text[:600])]
        got = batch(t + '/a', ['f%d' % i for i in range(len(files))])
        return [(f, 'the header holds%s, expected%s' % (show(g), show(expected(f, order)))) for f, g in zip(files, got) if g != expected(f, order)]
    finally:
        shutil.rmtree(t, ignore_errors=True)


def show(s):
    return ''.join(' ' + (repr(bytes.fromhex(w[1:]).decode('utf-8', 'replace')) if w[:1] == 'x' else w) for w in s.split(' ') if w)


def reduce_file(f, std, order):
    """drops lines while the problem stays"""
    def sub(lines):
        g = File.__new__(File)
        g.name, g.lines = f.name, lines
        g.section = '[error_code]' in lines
        at = lines.index('[error_code]') if g.section else len(lines)
        def kept(pairs, ls):
            return [(k, v) for k, v in pairs if any(l.startswith(k + ' = ') for l in ls)]
        g.keys, g.codes = kept(f.keys, lines[:at]), kept(f.codes, lines[at:])
        nl = '\r\n' if '\r\n' in f.text else '\n'
        g.text = ('\ufeff' if f.text[:1] == '\ufeff' else '') + nl.join(lines) + (nl if f.text[-1:] == '\n' and lines else '')
        return g
    best, i, tries = f, 0, 0
    if not judge([sub(f.lines)], std, order):
        return f
    best = sub(f.lines)
    while i < len(best.lines) and tries < 24:
        tries += 1
        g = sub(best.lines[:i] + best.lines[i + 1:])
        if judge([g], std, order):
            best = g
        else:
            i += 1
    return best


def C23(ctx):
    ctx.rule = ('generated translation files (keys, quoted values with escapes, multi-byte text and the characters CMake gives a meaning, '
                'comments, blank lines, CRLF, byte order mark, missing final newline, error code section); the generated headers are '
                'compiled as C++20 and C++17 and every string and the error table printed; a line without separator must fail the '
                'generation; repeated runs. Non-trivial: a value holds a character with a meaning to CMake or C++, or an unusual line end')
    order = code_values()
    q = ctx.quick

    def group(i):
        rng = ctx.rng('files', i)
        fs = [File(rng, n) for n in rng.sample(IDS, 10)]
        std = (0, 1, 0, 2)[i % 4]
        return i, fs, std, judge(fs, std, order)
    total, i = 0, 0
    with ThreadPoolExecutor(JOBS) as ex:
        while i < (24 if q else 400) and not (i and ctx.late()):
            for gi, fs, std, bad in ex.map(group, range(i, i + 8)):
                for f in fs:
                    ctx.case(f.text, f.nt, dict(file=f.text[:300], std=STDS[std][0]))
                    ctx.cls(STDS[std][0])
                total += len(fs)
                for f, what in bad[:1]:
                    if len(ctx.violations) >= 2:
                        break
                    if f is None:                      # find the file
                        f = next((g for g in fs if judge([g], std, order)), None)
                        if f is None:
                            ctx.violation('files together: %s' % what, dict(module='checks_gen', kind='gen', files=[(g.name, g.text) for g in fs],
                                          std=std, expect=[dict(keys=g.keys, codes=g.codes, section=g.section) for g in fs]))
                            continue
                    f = reduce_file(f, std, order)
                    w = (judge([f], std, order) or [(f, what)])[0][1]
                    ctx.violation('%s.toml holding %r, %s: %s' % (f.name, f.text, STDS[std][0], w), dict(
                        module='checks_gen', kind='gen', files=[(f.name, f.text)], std=std, expect=[dict(keys=f.keys, codes=f.codes, section=f.section)]))
            i += 8
    ctx.extra['files'] = total

    def bad_one(i):
        rng = ctx.rng('malformed', i)
        f = File(rng, rng.choice(IDS))
        m = rng.choice(MALFORMED)
        at = rng.randint(0, len(f.lines))
        nl = '\r\n' if rng.random() < .2 else '\n'
        t = nl.join(f.lines[:at] + [m] + f.lines[at:]) + (nl if rng.random() < .8 else '')
        return i, f.name, m, t, malformed(f.name, m, t)
    with ThreadPoolExecutor(JOBS) as ex:
        for i, name, m, t, w in ex.map(bad_one, range(120 if q else 2500)):
            ctx.case(('malformed', t), True, dict(malformed_line=m))
            ctx.cls('malformed line')
            if w and len(ctx.violations) < 3:
                ctx.violation('malformed line %r in %s.toml: %s' % (m, name, w), dict(module='checks_gen', kind='malformed', name=name, line=m, text=t))

    def again(i):
        rng = ctx.rng('again', i)
        return i, rerun([(f.name, f.text) for f in (File(rng, n) for n in rng.sample(IDS, rng.randint(1, 4)))], File(rng, 'zz').text, rng.randrange(4))
    with ThreadPoolExecutor(JOBS) as ex:
        for i, (fs, k, w) in ex.map(again, range(30 if q else 500)):
            ctx.case(('again', i), True)
            ctx.cls('repeated run')
            if w and len(ctx.violations) < 3:
                ctx.violation(w, dict(module='checks_gen', kind='again', files=fs[0], new=fs[1], k=k))
    for i in range(2 if q else 12):
        rng = ctx.rng('project', i)
        fs = [(f.name, f.text) for f in (File(rng, n) for n in rng.sample(['en', 'en_GB', 'ja', 'pt-BR'], 2))]
        w = project(fs, File(rng, 'zz').text, ('Ninja', 'Unix Makefiles')[i % 2])
        ctx.case(('project', i), True)
        ctx.cls('build through the CMake function')
        if w and len(ctx.violations) < 3:
            ctx.violation(w, dict(module='checks_gen', kind='project', files=fs, seed_i=i))


def malformed(name, m, text):
    t = tempfile.mkdtemp(prefix='arv_g')
    try:
        rc, out = generate([(name, text)], t)
        if rc == 0:
            return 'the generator reports success'
        if os.path.exists('%s/out/%s.hpp' % (t, name)):
            return 'a header is written'
        if re.sub(r'\s+', '', m) not in re.sub(r'\s+', '', out):
            return 'the message does not name the line: ' + out[:300]
    finally:
        shutil.rmtree(t, ignore_errors=True)


def rerun(files, new, k):
    """a second run leaves the headers of unchanged files alone and renews that of a changed one"""
    t = tempfile.mkdtemp(prefix='arv_g')
    k %= len(files)
    try:
        rc, out = generate(files, t)
        if rc:
            return (files, new), k, 'the generator fails: ' + out[:500]
        hs = ['%s/out/%s.hpp' % (t, n) for n, _ in files]
        old = [open(h, 'rb').read() for h in hs]
        for h in hs:
            os.utime(h, (1000, 1000))
        rc, out = generate(files, t)
        for h, o in zip(hs, old):
            if rc or open(h, 'rb').read() != o or os.stat(h).st_mtime != 1000:
                return (files, new), k, 'a second run over unchanged files touches ' + os.path.basename(h)
        f2 = list(files)
        f2[k] = (files[k][0], new)
        rc, out = generate(f2, t)
        if rc:
            return (files, new), k, 'the generator fails after an edit: ' + out[:500]
        after = [open(h, 'rb').read() for h in hs]
        fresh = tempfile.mkdtemp(prefix='arv_g')
        try:
            generate(f2, fresh)
            want = [open('%s/out/%s.hpp' % (fresh, n), 'rb').read() for n, _ in f2]
        finally:
            shutil.rmtree(fresh)
        if after != want:
            return (files, new), k, 'after an edit of %s.toml the headers are not those of a first run' % f2[k][0]
        return (files, new), k, None
    finally:
        shutil.rmtree(t, ignore_errors=True)


def project(files, new, gen):
    """a project using arg_router_translation_generator: building creates the headers, an edit renews them"""
    t = tempfile.mkdtemp(prefix='arv_g')
    try:
        for n, text in files:
            open('%s/%s.toml' % (t, n), 'wb').write(text.encode())
        open(t + '/CMakeLists.txt', 'w').write('cmake_minimum_required(VERSION 3.15)\nproject(p NONE)\ninclude("%s")\narg_router_translation_generator(\n SOURCES %s\n'
                                               ' OUTPUT_DIR "${CMAKE_CURRENT_BINARY_DIR}/tr/"\n TARGET tr)\n' % (
                                                   FUNC, ' '.join('"${CMAKE_SOURCE_DIR}/%s.toml"' % n for n, _ in files)))
        rc, o, e = run(['cmake', '-G', gen, '-S', t, '-B', t + '/b'], 60)
        if rc:
            return 'configuring fails: ' + (o + e).decode()[:500]
        for step in range(2):
            rc, o, e = run(['cmake', '--build', t + '/b', '--target', 'tr'], 60)
            if rc:
                return 'building fails: ' + (o + e).decode()[:500]
            d = tempfile.mkdtemp(prefix='arv_g')
            try:
                generate(files, d)
                for n, _ in files:
                    if not os.path.exists('%s/b/tr/%s.hpp' % (t, n)):
                        return 'building writes no header for %s (%s)' % (n, gen)
                    if open('%s/b/tr/%s.hpp' % (t, n), 'rb').read() != open('%s/out/%s.hpp' % (d, n), 'rb').read():
                        return 'building does not renew the header of %s (%s)' % (n, gen)
            finally:
                shutil.rmtree(d)
            files = [(files[0][0], new)] + files[1:]
            open('%s/%s.toml' % (t, files[0][0]), 'wb').write(new.encode())
    finally:
        shutil.rmtree(t, ignore_errors=True)


def replay(d):
    if d['kind'] == 'gen':
        fs = []
        for (n, text), e in zip(d['files'], d['expect']):
            f = File.__new__(File)
            f.name, f.text, f.keys, f.codes, f.section = n, text, e['keys'], e['codes'], e['section']
            fs.append(f)
        r = [w for _, w in judge(fs, d['std'], code_values())]
    elif d['kind'] == 'malformed':
        r = malformed(d['name'], d['line'], d['text'])
    elif d['kind'] == 'again':
        r = rerun([tuple(x) for x in d['files']], d['new'], d['k'])[2]
    else:
        r = project([tuple(x) for x in d['files']], 'k = "v"\n', 'Ninja')
    print(r or 'holds now')
    return 1 if r else 0


CHECKS = dict(C23=C23)
TECH = dict(C23='generated translation files driven through the generator and the compiler; oracle: the values the generator of the files '
                'wrote (round trip), failure of malformed lines, metamorphic repeated runs')
