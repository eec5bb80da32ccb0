#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the implemented checks and the notes below."""
import json, re, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
impl = re.search(r'properties! \{ (.*?) \}', open(root + '/harness/src/checks/mod.rs').read(), re.S).group(1)
impl = {x.strip().upper() for x in impl.split(',') if x.strip()}
tech = {
 'C01': ('model-based testing of operation histories', 'reference combine model over random histories'),
 'C02': ('model-based testing of operation histories', 'reference layering model over random histories and selections'),
 'C03': ('model-based testing with provenance model', 'every reachable tag compared with a provenance-tracking reference model'),
 'C04': ('fault-injecting property-based testing', 'one fault put at a known place of a generated typed tree, distributed over providers'),
 'C05': ('fault-injecting model-based testing', 'failing providers injected at random places of random histories'),
 'C06': ('differential property-based testing', 'all lookup interfaces against each other and the reference tree'),
 'C07': ('metamorphic property-based testing', 'focus against prefixed lookup in the original'),
 'C08': ('round-trip property-based testing', 'generated serde types and values, dynamic and derived'),
 'C09': ('boundary-directed property-based testing', 'all numeric widths against exact integer arithmetic'),
 'C10': ('differential property-based testing', 'lossy extraction against a reference conversion table and strict extraction'),
 'C11': ('differential and round-trip fuzzing', 'independent reference parser and renderer of the value grammar'),
 'C12': ('model-based property testing', 'reference pipeline over generated process environments'),
 'C13': ('differential property-based testing', 'own emitters for three formats against the source tree and each other'),
 'C14': ('model-based property testing', 'reference resolution over generated directory trees'),
 'C15': ('differential property-based testing', 'reference merge-key expansion over generated documents'),
 'C16': ('model-based property testing', 'path arithmetic over generated files, histories and round trips'),
 'C17': ('metamorphic property-based testing', 'wrapped against unwrapped extraction plus the provenance model'),
 'C18': ('stateful property-based testing', 'random jail histories, exits and threads against environment snapshots'),
 'C19': ('stateful property-based testing', 'random path strings with file-system snapshots, run unprivileged'),
 'C20': ('randomized concurrency testing', 'barrier-synchronised threads against the single-threaded model'),
 'C21': ('law-based property testing', 'equivalence, order and hash laws over generated names'),
 'C22': ('property-based testing', 'lexical resolution of base joined with difference'),
 'C23': ('table-driven property-based testing', 'literal table, round trips and reference nesting'),
 'C24': ('model-based property testing', 'list model of chains, paths and printed text'),
 'C25': ('metamorphic property-based testing', 'snapshots before and after reuse, clone and nesting'),
 'C26': ('round-trip property-based testing', 'native values, accessors, equality laws and serde_json output'),
 'C27': ('model-based property testing', 'list model of providers with recorded call sites'),
}
base = ('Randomised search with shrinking: a pass means no counterexample among the cases counted in the evidence file, '
        'not a proof. Trusts the reference model in harness/src and the Rust toolchain. ')
checks, na = [], []
for p in props:
    i = p['id']
    if i in impl:
        checks.append({'property': i, 'quick_cmd': f'./check {i}', 'thorough_cmd': f'./check {i} thorough',
                       'technique': tech[i][0], 'level': 'exploration', 'level_note': base + 'Oracle: ' + tech[i][1] + '.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'bash build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the checks use only the public interface of figment (features env, json, toml, yaml, test).'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
