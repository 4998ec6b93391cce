"""write MANIFEST.json and known_findings.txt's fixed lines from the tables here"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
 'C01': 'model-based property testing: random two-sided programs over random datatype trees against a byte-exact memory model (AddressSanitizer build)',
 'C02': 'stateful model-based testing: random operation histories against a reference matching-queue model',
 'C03': 'stateful model-based testing of request histories against a reference request-state model',
 'C04': 'stateful model-based testing of request arrays against a reference model of the array completion calls',
 'C05': 'model-based property testing of statuses and counts against a byte-exact reference model',
 'C06': 'model-based and metamorphic property testing: random histories with and without probes',
 'C07': 'property-based testing of random type expressions against an independent type-map model',
 'C08': 'differential and metamorphic property testing: families of equivalent constructor expressions against the type-map model',
 'C09': 'property-based round-trip and model testing of pack/unpack sequences, with overflow injection',
 'C10': 'model-based property testing of collectives against a one-process reference model',
 'C11': 'model-based property testing of in-place, MPI_ROOT and no-data collectives against a reference model',
 'C12': 'stateful model-based testing of communicator histories with traffic',
 'C13': 'property-based testing of group expressions against a one-process set model',
 'C14': 'stress and model-based testing over generated populations of live handles',
 'C15': 'repetition testing of generated balanced histories, allocation counts as the invariant',
 'C16': 'differential property testing: the same generated history through C, Fortran and random mixtures',
 'C17': 'fault injection by generated misuse after random valid prefixes, against the model\'s verdict',
 'C18': 'model-based property testing with sparse far-apart memory and absolute addresses',
 'C19': 'metamorphic property testing: generated histories rewritten with other send and receive forms',
 'C20': 'property-based testing of cart calls with guarded arrays against a one-process model',
 'C21': 'property-based testing of environment calls under injected host names and clocks',
 'C22': 'differential property testing of eight other builds against the same reference model',
 'C23': 'sanitized fuzzing with generated programs: AddressSanitizer and a memory-fill differential',
 'C24': 'stateful model-based testing of list histories against a reference sequence, with AddressSanitizer and with CHECKS',
 'C25': 'fault injection: a chosen allocation of the library fails in generated histories; element-count and handle overflow, against the model\'s verdict',
}
NOTE = ('Generated search: every run compares each returned value, output argument, status and every byte of every buffer of '
        'generated programs (run against a fresh build of /repo) with an independent reference model; evidence holds the counts. '
        'Sampled, not exhaustive; trusts the model and the driver.')
checks = [{'property': p['id'], 'quick_cmd': './check %s quick' % p['id'], 'thorough_cmd': './check %s thorough' % p['id'],
           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': TECH[p['id']], 'level': 'exploration',
           'level_note': NOTE} for p in props]
json.dump({'version': 1, 'setup_cmd': './check setup', 'checks': checks, 'not_applicable': []},
          open(V + '/MANIFEST.json', 'w'), indent=1)
FIX = dict(F1='C07',F2='C07',F3='C07',F4='C18',F5='C07',F6='C07',F7='C08',F8='C08',F9='C01',F10='C05',F11='C04',F12='C04',F13='C04',
           F14='C03',F15='C11',F16='C12',F17='C09',F18='C16',F19='C08',F20='C22',F21='C23',F22='C06',F23='C17',F24='C21',F25='C16',F26='C07',F27='C18',
           F28='C09',F29='C20',F30='C24',F31='C25',F32='C25',F33='C05',F34='C07',F35='C17',F36='C22')
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
log = [l for l in log if l.split(' ', 1)[1].startswith('fix: ')]
assert len(log) == len(FIX), len(log)
with open(V + '/known_findings.txt', 'w') as f:
    f.write('# finding: property=<id> key=<key> <text>    a defect recorded, not repaired (none)\n'
            '# fixed: property=<id> <commit> <what failed; the commit message says more>\n')
    for k, l in zip(FIX, log):
        h, s = l.split(' ', 1)
        f.write('fixed: property=%s %s %s\n' % (FIX[k], h, s[5:]))
