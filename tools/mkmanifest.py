"""Regenerate MANIFEST.json from the checks that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
NA = {
    'N01': 'quality of a stochastic search on a corpus: a statistical claim about run-time results that no static argument over the source can bound',
    'N02': 'quantifies over accumulated floating-point rounding along unbounded runs; the analysis treats arithmetic as exact and has no error model',
    'N03': 'a liveness claim about operating system processes being killed at arbitrary points: outside the source, and false today when all workers are killed (see DESIGN.md)',
    'N04': 'a claim about the geometry of rendered images and fonts, which the source does not determine',
}
checks, na = [], []
for line in open(os.path.join(HERE, 'properties.jsonl')):
    pid = json.loads(line)['id']
    if os.path.exists(os.path.join(HERE, 'checks', pid.lower() + '.py')):
        m = importlib.import_module('checks.' + pid.lower())
        checks.append({
            'property': pid,
            'quick_cmd': f'/opt/venv/bin/python check.py {pid}',
            'thorough_cmd': f'/opt/venv/bin/python check.py {pid} --thorough',
            'technique': getattr(m, 'TECHNIQUE', 'abstract interpretation of the source (path summaries, loop summaries, value-flow terms)'),
            'level': 'other',
            'level_note': m.EXPLANATION,
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na},
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
