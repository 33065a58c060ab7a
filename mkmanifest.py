#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks and properties.jsonl"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/lib')
sys.dont_write_bytecode = True
import registry

PBT = 'property-based testing: '
TECH = {
    'C01': 'generated well-formed trees and intended command lines; oracles: the intent and a reference model',
    'C02': 'mutated and random command lines on generated trees; oracle: a reference model with exact error texts',
    'C03': 'metamorphic: re-ordered, re-spelt, collapsed/expanded lines and other parse() overloads against the original',
    'C04': 'generated valid, extreme and malformed value texts for every type; oracle: exact decimal/boolean/text conversion in Python',
    'C05': 'lines around the count bounds of multi-value nodes; oracle: reference model',
    'C06': 'values in and around the bounds, repeated flags, groups, aliases, defaults; oracle: reference model',
    'C07': 'lines using aliases; oracles: reference model and the rewriting of an alias into its targets',
    'C08': 'lines using group alternatives in every combination; oracle: reference model',
    'C09': 'permutations of lines with dependent nodes; oracle: reference model',
    'C10': 'run-time masks over trees; oracles: reference model and the same tree compiled without the disabled nodes',
    'C11': 'lines for every mode path of generated trees; oracle: reference model',
    'C12': 'generated histories of parse/help/copy operations on one root; oracle: a fresh root per operation and the model',
    'C14': 'misspelt names on generated trees; oracle: exhaustive search with an independent edit distance',
    'C27': 'generated trees under several build configurations; oracle: reference model parameterised by the prefixes',
}


def main():
    props = [json.loads(l) for l in open(HERE + '/properties.jsonl', encoding='utf-8') if l.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        try:
            registry.find(i)
        except SystemExit:
            na.append(dict(property=i, reason='no check built yet'))
            continue
        t = TECH.get(i) or registry.technique(i)
        checks.append(dict(property=i, quick_cmd='./run.py %s' % i, thorough_cmd='./run.py %s --tier thorough' % i,
                           technique=PBT + t if not t.startswith('property-based') else t, level='exploration',
                           level_note='every generated case judged by the stated oracle; nothing is proved beyond the '
                                      'cases generated (counts and samples in evidence/%s.json)' % i))
    m = dict(version=1, setup_cmd='python3 -m compileall -q lib || true', checks=checks, not_applicable=na,
             notes='Property-based testing and fuzzing.  Every check compiles generated programs against '
                   '/repo/include at run time; no hooks in /repo are needed.')
    m['setup_cmd'] = 'true'
    with open(HERE + '/MANIFEST.json', 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
