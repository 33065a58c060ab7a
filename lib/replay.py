"""run.py replay <file>: re-runs a recorded violation against /repo's current tree."""
import importlib
import json

from srv import Build, CompileError, batch, cmdF


def main(path):
    d = json.load(open(path))
    kind = d.get('kind')
    print('property %s: %s' % (d['property'], d['what'][:2000]))
    if kind == 'help':
        import checks_help
        return checks_help.replay_help(d)
    if 'module' in d:
        return importlib.import_module(d['module']).replay(d)
    lp, sp = d.get('prefixes') or ('--', '-')
    b = Build(d.get('flags') or (), d.get('std'), cxx=d.get('cxx'))
    try:
        b.prepare()
        try:
            exe = b.compile_tu('replay', d['cpp'])
        except CompileError as e:
            print('does not compile:\n' + e.text[:3000])
            return 1 if kind == 'compile' else 2
        if kind == 'compile':
            print('compiles now')
            return 0
        from engine import same, dec
        if kind == 'model':
            from engine import tree_load
            from model import Model
            g = batch(exe, [cmdF(d['mask'], d['argv'], d.get('how', 0))])[0]
            e = Model(tree_load(d['tree']), d['mask'], lp, sp).expect(d['argv'])
        elif kind == 'pair':
            g, e = batch(exe, [cmdF(d['mask'], d['argv']), cmdF(d['mask'], d['argv2'], d.get('how2', 0))])
        elif kind == 'probe':
            g, e = batch(exe, [d['cmd']])[0], None
            print('got', dec(g), 'expected', d['expected'])
            return 0 if dec(g) == d['expected'] else 1
        elif kind == 'history':
            g = batch(exe, d['cmds'])[-1]
            print('got', dec(g), 'expected', d['expected'])
            return 0 if dec(g) == d['expected'] else 1
        elif kind == 'differential':
            x2 = b.compile_tu('without', d['cpp_without'])
            c1, c2 = ('H %d' % d['mask'], 'H 0') if d['argv'] == ['<help>'] else (cmdF(d['mask'], d['argv']), cmdF(0, d['argv']))
            print('with disabled nodes:', dec(batch(exe, [c1])[0]))
            print('without them       :', dec(batch(x2, [c2])[0]))
            print('at recording time expected:', d['expected'])
            return 1
        else:
            print('unknown kind of replay: %s' % kind)
            return 2
        print('got', dec(g))
        print('expected', dec(e))
        return 0 if same(g, e) else 1
    finally:
        b.close()
