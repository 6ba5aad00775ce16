#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run by hand after editing; the output is committed)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = 'apertium/'
P = []


def prop(id, title, statement, over, text, why, files, mech, level, note, technique, state=None, observe=None, hook=None):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook
    assert len(title) <= 80, (id, len(title))
    P.append((d, level, note, technique))


STREAM = [A + f for f in ('apertium_pretransfer.cc', 'pretransfer.cc', 'transfer.cc', 'transfer_base.cc', 'interchunk.cc', 'postchunk.cc', 'apertium_posttransfer.cc',
                          'stream_tagger.cc', 'unigram_tagger.cc', 'hmm.cc', 'lswpost.cc', 'perceptron_tagger.cc', 'extract_caps.cc', 'caps_restorer.cc' )]

exec(open(os.path.join(V, 'sim', 'meta_props.py')).read())

NA = []
exec(open(os.path.join(V, 'sim', 'meta_na.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, *_ in P:
        for x in d['anchors']['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps(d, ensure_ascii=False) + '\n')
    for n in NA:
        d = dict(n); d.pop('reason'); f.write(json.dumps(d, ensure_ascii=False) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 sim/build.py',
     'hooks': {'guard': 'SIM_NO_REPO_HOOKS (no hook was added to /repo)', 'enable': 'none needed: the sources are compiled as they are with sim/prelude.h force-included, which puts the C and C++ streams, time and randomness of a stage behind the simulator', 'source_commits': []},
     'checks': [{'property': d['id'], 'quick_cmd': 'python3 sim/check.py %s --tier quick' % d['id'], 'thorough_cmd': 'python3 sim/check.py %s --tier thorough' % d['id'],
                 'evidence_file': 'evidence/%s.json' % d['id'], 'technique': t, 'level': l, 'level_note': n} for d, l, n, t in P],
     'not_applicable': [{'property': n['id'], 'reason': n['reason']} for n in NA],
     'notes': 'Every check recompiles what changed in /repo (content-hashed cache in /verif/build), then explores seeded simulated runs; a violation is minimised and replayed in a fresh process before it is reported. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
try:
    import jsonschema
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(P), 'claimed', len(NA), 'not applicable')
except ImportError:
    print('jsonschema not available (use python3-vt)')
