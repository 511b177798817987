#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []


def prop(id, title, statement, over, text, why, files, mechanism, note, state=(), observe=()):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                    'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
                    'observe_at': list(observe), 'hook_needed': None},
        '_note': note})


JV = 'ts2python/json_validation.py'
TD = 'ts2python/typeddict_shim.py'
SD = 'ts2python/singledispatch_shim.py'
TS = 'ts2pythonParser.py'
EB = 'ts2python.ebnf'

exec(open(os.path.join(HERE, 'tools', 'props.py'), encoding='utf-8').read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w', encoding='utf-8') as f:
        for p in PROPS:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'},
                               ensure_ascii=False) + '\n')
    man = {
        'version': 1,
        'setup_cmd': "python3-vt -c 'import z3' && chmod +x check",
        'checks': [{
            'property': p['id'],
            'quick_cmd': f"./check {p['id']} --tier quick",
            'thorough_cmd': f"./check {p['id']} --tier thorough",
            'technique': 'bounded symbolic execution of the real Python source, decided by z3; '
                         'counterexamples replayed on the unmodified code',
            'level': 'model_checking',
            'level_note': p['_note'],
        } for p in PROPS if p['_note']],
        'not_applicable': NOT_APPLICABLE,
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
