"""Regenerates MANIFEST.json from the checks that exist."""
import json
import pathlib

root = pathlib.Path(__file__).resolve().parent.parent
props = [json.loads(x) for x in (root / 'properties.jsonl').read_text().splitlines()]
NOTE = {
    'P01': 'round trip against the quantisation bound plus bit-level reference packing/unpacking',
    'P02': 'histories of additions (valid, repeated, rejected) against a dictionary model of the catalogue',
    'P03': 'round trip and reference-written navigation blocks against independent PROJ evaluation',
    'P04': 'histories of sounding additions against a dictionary model',
    'P05': 'histories of station additions against a dictionary model',
    'P06': 'queries against a linear filter over the catalogue model of a reference-written file',
    'P07': 'queries against a linear filter over the record model of a reference-written file',
    'P08': 'lookups against a brute-force minimum over the record model',
    'P09': 'differential: the same content written in both byte orders by the reference writer',
    'P10': 'reference encoder of each packing against the decoder, integers and bits generated',
    'P11': 'reference bit packer with generated packing tables against the decoder',
    'P12': 'generated physical part sets; invariants of the merged profile plus exact expected values',
    'P13': 'the same records laid out in every layout by the reference writer, against the record model',
    'P14': 'generated reports with generated texts against the report model',
    'P15': 'strict independent parser of the written bytes, driven by histories of additions',
    'P16': 'metamorphic: permutations, aliasing, repeated and interleaved writes compared bytewise',
    'P17': 'differential: query sequences on one reader against a fresh reader per query',
    'P18': 'round trip of generated element lists against the element model',
    'P19': 'strict independent record parser of the written bytes',
    'P20': 'reference writer of all element types against the decoder',
    'P21': 'queries against a linear filter over the generated elements',
    'P22': 'export parsed as JSON and compared with the decoded elements',
    'P23': 'stateful attribute assignment against a domain table',
    'P24': 'fault injection: truncation, corruption and junk against the documented errors',
    'P25': 'algebraic invariants and formulas over generated profiles',
    'P26': 'formulas, monotonicity and missing-value rules over generated arguments',
    'P27': 'stateful models of the buffer, structures and ordered set',
    'P28': 'generated unused-slot patterns against the record model',
    'P30': 'files with generated headers from the reference writer against the values stored',
    'P31': 'generated unstorable content and failing writes (fault injection) against refusal rules and a fresh object',
    'P32': 'differential execution of generated histories, files and queries in processes with different environments',
    'P29': 'elements drawn by generated names against a reference table of numbers, read by a strict independent parser',
}
checks, na = [], []
for p in props:
    i = p['id']
    if (root / 'checks' / f'{i.lower()}.py').exists():
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i} quick',
            'thorough_cmd': f'python3 check.py {i} thorough',
            'technique': 'property-based testing (Hypothesis): ' + NOTE[i],
            'level': 'exploration',
            'level_note': 'Every generated case is judged by an explicit oracle; failures are shrunk to a replay file. '
                          'Nothing is claimed outside the generated domain described in DESIGN.md; trusts numpy, PROJ, xarray and the '
                          'reference models in /verif/vflib.',
        })
    else:
        na.append({'property': i, 'reason': 'the check is not built yet'})
m = {'version': 1,
     'setup_cmd': '/opt/venv/bin/python -c "import sys; sys.path.insert(0, \'.\'); from vflib import boot"',
     'checks': checks, 'not_applicable': na}
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks,', len(na), 'not claimed')
