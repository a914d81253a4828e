#!/usr/bin/env python3
"""writes MANIFEST.json from the rules that exist and properties.jsonl"""
import glob, importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import common
for m in sorted(glob.glob(V + '/engine/rules/r_*.py')):
    importlib.import_module('rules.' + os.path.basename(m)[:-3])
TECH = {
 'C01': 'lock-set analysis of thread-reachable state', 'C02': 'queue dataflow and path-count analysis on the value-numbered CFG',
 'C03': 'must-join path analysis including unwind edges', 'C04': 'lock-order graph, wait/notify typestate',
 'C05': 'dispatcher typestate and lock-set analysis', 'C06': 'path-count analysis of event dispatches',
 'C07': 'interprocedural write-effect analysis', 'C08': 'accumulate/use/reset typestate of statistics',
 'C09': 'interprocedural value-flow of constructor arguments', 'C10': 'value flow from option names to settings',
 'C11': 'guard dominance and flag typestate', 'C12': 'sequence analysis of stream operations', 'C13': 'writer/reader layout comparison by value numbering',
 'C14': 'must-check analysis of stream states', 'C15': 'index provenance and permutation analysis', 'C16': 'guard analysis of label uses',
 'C17': 'entropy-source and seed flow analysis', 'C18': 'zero-divisor guard analysis', 'C19': 'interval analysis of the table lookup',
 'C20': 'loop bound and progress analysis', 'C21': 'path analysis of the line search', 'C22': 'cast/type-provenance analysis',
 'C23': 'instantiation coverage, compile witness, narrowing lint', 'C24': 'symbolic shape inference', 'C25': 'sequence and value-flow analysis of the commands',
 'C26': 'normalisation axis and coverage analysis on value terms', 'C27': 'escape and iterator-validity analysis', 'C28': 'definite initialisation dataflow'}
NA = {
 'N01': 'a numerical inequality between floating point optima; no static argument in reach bounds it',
 'N02': 'equality of real-valued functions and their derivatives needs symbolic algebra over the formulas, which is another family',
 'N03': 'floating point accumulation order depends on the schedule, the property does not hold bit for bit and a bound is numerical',
 'N04': 'error bounds on floating point approximations are numerical, not decidable from dataflow',
 'N05': 'a statistical statement about data',
}
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if i in common.RULES:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique='static analysis: ' + TECH[i], level='other',
                           level_note='decided on the resolved program (clang AST/CFG of every unit, all instantiations) for every input, '
                                      'within the assumptions in DESIGN.md; rules: ' + '; '.join(n for n, t, f in common.RULES[i])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no sound static rule has been built for it yet')))
json.dump(dict(version=1, setup_cmd='python3 engine/facts.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
