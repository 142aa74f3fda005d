#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = {}
SIM = 'deterministic simulation with fault injection: seeded schedules, network behaviour and client histories against the whole broker in one process, judged against a reference model'
PW = 'deterministic simulation with fault injection: the tool behind a system-call seam, an error, short write, kill or power loss at every file operation, states judged against a map model and the real broker'
LEVEL = {
    'B20': ('fault_enumeration', 'For every generated update, every crash point and every failing file operation is injected, and power-loss states are derived from a model of a journaling file system (data and directory entries persist independently, directory entries in order). The sequence of updates is sampled by seed. Trusts that file-system model and that the tool reaches the disk only through libc (checked: the logged operations must reproduce the real file).'),
    'B21': ('exploration', 'Seeded histories of updates with adversarial names; every resulting file is compared entry by entry with a map model and then given to the real broker in the simulator, which clients try to enter with right and wrong credentials. Sampled, not exhaustive.'),
    'B28': ('fault_enumeration', 'For every generated update, each file operation is failed and each is a kill point, and every file below the scratch directory is judged afterwards; updates, owners, modes, umasks and log levels are sampled by seed. Trusts that the tool reaches files only through libc.'),
    'B29': ('exploration', 'Seeded interleavings of two to four runs of the real tool, one file operation at a time, sampled, not exhaustive; the file is judged after every operation. Advisory locks are real, waiting for them is scheduled; path resolution inside realpath is one step.'),
}
NOTE = {
    'B27': ' Passwords carry marks that are searched for in everything the broker logs, prints and sends, as text, in pieces, escaped, hexadecimal and as lists of byte values.',
    'B16': ' The interrupt comes at a sampled simulated instant.',
    'B23': ' Environment and file are the process\'s own, in a scratch directory; bind errors are injected. The program around it (main.rs) is B30\'s.',
    'B30': ' main.rs itself runs (compiled from /repo\'s file as a program of the simulator, its runtime\'s block_on taken over); /etc/ratelmq is redirected to a scratch directory by an LD_PRELOAD shim; log4rs writes as it would.',
    'B25': ' Memory is counted by an allocator that attributes every block to the broker\'s or the harness\'s tasks; growth below about 10 blocks or 20 KB plus 1 block per 100 (half a byte per) operations is not reported.',
    'B26': ' Memory is the peak of the broker\'s own allocations as counted by the allocator, against 512 KB plus, per connection, 160 KB and 96 messages.',
    'B17': ' A client that reads nothing holds the others up for at most the 20 s after which its connection is given up; the check allows 30 s of simulated time.',
}
BASE = 'Evidence from seeded search over schedules, segmentations, delays, resets and client histories, each execution exactly repeatable from its seed; not a proof. Runs the real ratelmq code and the real tokio channels, tasks and timers; the sockets, the clock, entropy, the interrupt and the choice of the next task are the simulator\'s. Tasks interleave at await points only.'
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    lvl, note = LEVEL.get(i, ('exploration', BASE + NOTE.get(i, '')))
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i}',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json',
        'technique': PW if i in ('B20', 'B21', 'B28', 'B29') else SIM,
        'level': lvl,
        'level_note': note,
    })
json.dump({
    'version': 1,
    'setup_cmd': 'bash build.sh',
    'checks': checks,
    'not_applicable': na,
    'notes': 'No hooks in /repo: the simulator replaces tokio\'s network, clock and scheduling through a patched copy of tokio (simtokio/, cargo [patch]) and libc\'s entropy and clocks by symbol interposition. VERIF_TIER=thorough selects the deeper search too.',
}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
