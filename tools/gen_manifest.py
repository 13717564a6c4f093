#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
NA = {
 'N01': "A pure function of the document: no schedule, clock, I/O, message or crash can influence it, so simulated runs with faults decide nothing that evaluating the function on sampled inputs would not.",
 'N02': "Termination and absence of panics over all inputs of a pure function; the deciding variable is the input alone, which is the domain of proof or fuzzing, not of fault simulation.",
 'N03': "Conformance of a pure function to a text specification; nothing here depends on scheduling, time, I/O or faults.",
}
NOTE = {
 'C01': 'seeded file-system faults (EINTR, short reads and writes, errors, full disk), all schedules of concurrent runs',
 'C02': 'every failing system call at seeded points; liveness as an end within bounded simulated time',
 'C03': 'snapshots of the whole simulated disk before and after, decoy files, all fault kinds',
 'C04': 'every version of the output recorded at every write; kills at any call and in the middle of a write',
 'C05': 'concurrent initialisations as processes and threads, configurations appearing between any two calls',
 'C06': 'kills at any call and mid-write, full disks, failing calls, then reruns and readers',
 'C07': 'short, failed and interrupted reads, unreadable files, atomic replacement between any two calls',
 'C08': 'two to four conversions as processes or threads, interleaved at calls and basic blocks; kills and faults in one',
 'C09': 'simulated browser with seeded timing, splits, busy ports and faults; the page is checked at the time of the print',
 'C10': 'browser failures at every protocol step and start-up phase; bounded simulated time',
 'C11': 'failures at every step of a PDF conversion; process table and disk examined after the end',
 'C12': 'chains of killed and failing runs, then a clean one, against a run on a fresh directory',
 'C13': 'differential against the same scenario with default logging and a healthy standard error',
 'C14': 'threads preempted at basic blocks of the renderer, random environments, clocks and addresses',
 'C15': 'file-system faults during the two generators, against a fault-free reference',
 'C16': 'threads of file helpers under all file-system faults and atomic replacement',
 'C18': 'sequences of calls from one or two threads of one program with failing system calls and browsers; descriptors, threads, browsers, disk and process settings examined between the calls',
 'C17': 'the wrapper in a simulated Node (process, timers, clock, module resolution, child processes): seeded platforms, arguments, concurrent calls, missing packages, failed starts, signals, exit statuses',
}
checks = []
na = []
for p in props:
    i = p['id']
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    checks.append({
        'property': i,
        'quick_cmd': f'bash check.sh {i} quick',
        'thorough_cmd': f'bash check.sh {i} thorough',
        'technique': 'deterministic simulation with fault injection, seeded search: ' + NOTE[i],
        'level': 'exploration',
        'level_note': "The wrapper's real modules run in a simulated Node; execa is a contract model, the native binary a stand-in with a status, signal, output and duration. Seeded sampling, not exhaustive." if i == 'C17' else 'Real code of the repository and its dependencies runs inside a simulated kernel, scheduler, clock and browser; seeded sampling, not exhaustive. See DESIGN.md for the fault model and what lies outside it.',
    })
m = {
 'version': 1,
 'setup_cmd': 'bash check.sh build',
 'hooks': {'guard': 'none: no hook in /repo; libc symbols are interposed and basic-block callbacks are added by compiler flags when the checks build it', 'enable': 'sut/rustc-wrapper.sh (sancov flags) and the symbols exported by sim', 'source_commits': []},
 'checks': checks,
 'not_applicable': na,
}
open('/verif/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
