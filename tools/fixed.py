"""Appends a fixed entry: tools/fixed.py ID COMMIT TEXT"""
import json, os, sys
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
with open(path) as file:
    data = json.load(file)
id_, commit, text = sys.argv[1:]
data.setdefault('fixed', []).append(f'fixed: property={id_} {commit} {text}')
with open(path, 'w') as file:
    json.dump(data, file, indent = 1)
    file.write('\n')
