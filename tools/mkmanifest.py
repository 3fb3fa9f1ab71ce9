"""Writes MANIFEST.json from the list of checks below (run by hand after adding a check)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'Sound for the current source under the assumptions listed in the evidence file; constructs outside the analysed language make the check fail, never pass. Trusted: rustc front end and MIR, the models of std and third-party functions, the Python interpreter.'
T = {
 'P01': 'abstract interpretation of MIR in a polynomial (limb/carry) domain',
 'P02': 'abstract interpretation of MIR in a polynomial byte/limb domain',
 'P03': 'abstract interpretation of MIR in multiplicative (exponent and 2-Sylow) domains',
 'P04': 'compile-time constant extraction and algebraic comparison',
 'P05': 'abstract interpretation in a field-polynomial domain, Rust MIR and circuit AST',
 'P06': 'abstract interpretation of MIR in a field-polynomial domain',
 'P07': 'transcript-effect analysis: abstract interpretation with event histories',
 'P08': 'transcript-effect analysis: dependence of challenges on absorbed data',
 'P09': 'accept-condition analysis: abstract interpretation of verifiers',
 'P10': 'accept-condition analysis: verifier equations as polynomials in group/field terms',
 'P11': 'shape analysis: abstract interpretation of verifiers over malformed shapes',
 'P12': 'abstract interpretation of MIR with group elements as linear combinations',
 'P13': 'randomness-effect and taint analysis by abstract interpretation',
 'P14': 'abstract interpretation of MIR over symbolic sparse matrices',
 'P15': 'abstract interpretation of MIR over symbolic files',
 'P16': 'abstract interpretation of MIR and host-binding effect analysis',
 'P17': 'circuit determinacy analysis on the constraint AST',
 'P18': 'constraint extraction and polynomial ideal reasoning',
 'P19': 'symbolic constraint extraction in a Boolean/XOR normal-form domain',
 'P20': 'constraint dataflow analysis of the membership circuits',
 'P21': 'abstract interpretation of the TypeScript syntax tree, all paths',
 'P22': 'abstract interpretation of the TypeScript syntax tree, symbolic bytes and points',
 'P23': 'abstract interpretation of MIR over interval partitions',
 'P24': 'abstract interpretation of MIR in field-polynomial domains',
 'P25': 'abstract interpretation of MIR in a limb domain',
 'P26': 'abstract interpretation of MIR in a field-polynomial domain',
 'P27': 'evaluation of the build scripts to their command sequence, checked against the circuit syntax tree',
}
NA = {
 'P30': 'Knowledge soundness is a computational statement about all adversaries (it rests on discrete-log hardness and the random-oracle heuristic); no static argument about this source decides it. Its code-level ingredients are P07-P11.',
 'P31': 'Zero knowledge quantifies over simulators and distributions; static analysis of the source cannot establish distributional equality. Its code-level ingredient, fresh independent blinding, is P13.',
 'P32': 'Constant-time behaviour depends on compiler output and on num-bigint-dig, k256 and a WebAssembly engine outside the tree; several routines are documented as variable time, so no checkable guarantee exists.',
 'P33': 'Collision resistance is a cryptographic hardness assumption, not a property of source code.',
 'P34': 'Completeness of the whole pipeline for every instance size is a statement about unbounded iteration through hash-derived generators and serialisation; the per-component equations that imply it (P06, P07, P10, P26) are claimed instead.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
done = [p for p in props if os.path.exists(os.path.join(ROOT, 'checks', p.lower() + '.py'))]
NOTE = {}
PENDING = 'The check for this property is not built yet.'
m = {'version': 1,
     'setup_cmd': "python3-vt -c \"import sys; sys.path.insert(0,'lib'); import mir; print(mir.build())\"",
     'checks': [{'property': p, 'quick_cmd': './check %s quick' % p, 'thorough_cmd': './check %s thorough' % p,
                 'technique': T[p], 'level': 'other', 'level_note': NOTE.get(p, '') + GEN} for p in done],
     'not_applicable': [{'property': p, 'reason': NA.get(p, PENDING)} for p in props if p not in done],
     'notes': 'Every check type-checks /repo\'s current Rust sources through the shadow workspace (or parses the circuits / TypeScript) and reports the construct that fails; see DESIGN.md.'}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(done), 'checks')
