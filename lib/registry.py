import importlib

MODS = ['checks_tree', 'checks_text', 'checks_misc', 'checks_help', 'checks_build', 'checks_lang', 'checks_gen', 'checks_rules', 'checks_bytes', 'checks_policy', 'checks_conc', 'checks_vrules', 'checks_nodes', 'checks_strings']


def find(prop):
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if prop in mod.CHECKS:
            return mod.CHECKS[prop]
    raise SystemExit('no check for ' + prop)


def technique(prop):
    for m in MODS:
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        if prop in mod.CHECKS:
            return mod.TECH[prop]
