#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties and the groups of checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
groups = json.load(open(V + '/harness/groups.json'))
T = {
 'C01': ('differential testing of the encoders against the evaluation definition, generated codes and words', ''),
 'C02': ('differential testing of masked encoders against the masked transform, generated masks', ''),
 'C03': ('differential testing of the CRC against schoolbook division, generated polynomials and messages', ''),
 'C04': ('encode/decode round trip over generated configurations, gains and noise levels', ''),
 'C05': ('differential testing against a reference recursive decoder, near ties not judged', ''),
 'C06': ('differential testing against exhaustive search and a reference recursion', ''),
 'C07': ('differential testing against a reference list decoder (copying paths), near ties not judged', ''),
 'C08': ('differential testing against a textbook SCL decoder, near ties not judged', ''),
 'C09': ('differential testing against textbook SCL with CRC selection; metamorphic comparison with the decoder without CRC', ''),
 'C10': ('differential testing against exhaustive maximum likelihood search', ''),
 'C11': ('metamorphic testing under permutations of the variables, and a reference list decoder', ''),
 'C12': ('differential testing of the codecs against each other', ''),
 'C13': ('metamorphic testing: adding a codeword to the received vector', ''),
 'C14': ('metamorphic testing: scaling of signal and noise', ''),
 'C15': ('stateful testing: generated histories over several instances against fresh instances', ''),
 'C16': ('algebraic laws and differential testing of the soft arithmetic and of decoders compiled with each format', ''),
 'C17': ('generated and mutated configurations against a model of what describes a code', ''),
 'C18': ('round trip: generated token sequences, layouts and include trees against the parsed tokens', ''),
 'C19': ('stateful model-based testing of the simulator with a scripted decoder and user commands', ''),
 'C20': ('stateful model-based testing: counters against a recount of the trials seen by a scripted decoder', ''),
 'C21': ('generated configurations; exact checks of what the codec is given, statistical tests of the noise beyond 6 sigma', ''),
 'C22': ('stateful model-based testing of runs, restarts and saves against a model of the file', ''),
 'C23': ('generated schedules of concurrent savers and injected file faults against a model of the file', ''),
 'C24': ('differential testing of displayed and exported values against values recomputed from the counters', ''),
 'C25': ('metamorphic testing of the real programs: reruns and interval settings', ''),
 'C26': ('statistical testing of simulated rates against closed forms beyond 6 sigma', ''),
 'C27': ('fuzzing of configurations and received vectors under address, undefined and memory sanitizers', ''),
 'C28': ('metamorphic testing: staged decoder against plain decoders of each size', ''),
 'C29': ('fuzzing of parameter and results files under address and undefined sanitizers with semantic oracles', ''),
 'C31': ('metamorphic testing under other magnitudes, and a reference decoder of equal magnitudes, in hard-input builds', ''),
 'C32': ('differential testing of the shipped files against an independent reading; generated words, noise and runs', ''),
 'C33': ('fault injection: generated failing allocations in generated histories, against undisturbed twins', ''),
 'C34': ('differential testing of diagnostic builds against the usual one, with address and undefined behaviour sanitizers', ''),
 'C30': ('stateful fuzzing of simulations under address, undefined and memory sanitizers and counted allocations and files', ''),
}
claimed = [p for g in groups.values() for p in g['props']]
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append({
            'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': 'property-based testing: ' + T[i][0], 'level': 'exploration',
            'level_note': 'Holds on every generated case (fixed numbers of cases, reproducible from the seed); no claim beyond them. '
                          'Trusts the reference definitions in harness/ and the compiler.' + (' ' + T[i][1] if T[i][1] else '')})
    else:
        na.append({'property': i, 'reason': 'its check is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 run.py --build',
     'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo are needed: harnesses link the unchanged sources and intercept library calls at link time. The fix commits are listed in known-findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed,', len(na), 'not')
