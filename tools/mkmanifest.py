#!/opt/venv/bin/python
"""Writes /verif/MANIFEST.json from the properties that have a check."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = ('Seeded search, not exhaustive: no violation in the fixed number of simulated runs stated in '
        'the evidence file. Trusts the simulator in dst/ and the reference model named in DESIGN.md. ')
NOTES = {
    'C01': 'Threads, thread identifiers, locks, clock and the file layer under io are simulated; '
           'ThreadAwareFile itself is the real code, preempted at every line (or bytecode).',
    'C02': 'As C01, plus stalled and failing closes and a simulated clock for the timeouts.',
    'C03': 'As C01 with the real document classes on top; the reference is the bytes generated.',
    'C04': 'Reference: an independent EBML model that generated the bytes.',
    'C05': 'Errors and interruptions at any stream operation; reference as C04.',
    'C06': 'Every cut position is drawn; growth is simulated between operations.',
    'C07': 'Damage is drawn; work is bounded by counters on the simulated stream.',
    'C08': 'Reference: the decoder of dst/model.py, written from the documented rule.',
    'C09': 'Write errors, full disks, torn writes and interruptions on a simulated stream.',
    'C10': 'As C09, with seeks and reads, and the XML tree compared with the model.',
    'C11': 'Loads from simulated threads and a simulated file system with faults.',
    'C12': 'Each operation of a history is compared with the same one in a fresh process image.',
    'C13': 'The open-handle table of the simulated file system is checked after every call.',
    'C14': 'The tools run in process on a simulated file system and standard streams.',
    'C15': 'The clock and time zone are simulated; real datetime arithmetic.',
    'C16': 'Directories, their contents and their faults are simulated.',
    'C20': 'Bad and slow regions, outages and in-place overwrites on a simulated stream that records '
           'every byte read; reference as C04.',
    'C21': 'The output streams fail and are interrupted; complete output is parsed and compared with '
           'the document model, cut output with the complete one.',
}
NA = {
    'C17': 'Pure functions of their arguments: no thread, clock, I/O, crash point or history takes '
           'part, so there is nothing for a simulator to schedule or fail. (Round trips of generated '
           'values through whole documents are exercised by C09 and C10.)',
    'C18': 'createID and validateID are pure functions of their arguments and an immutable schema; '
           'no schedule, fault or history can affect them.',
    'C19': 'Schema.addElement is a deterministic in-memory computation on one definition; no '
           'schedule, fault or history takes part. (Failing loads are covered by C11.)',
}


def main():
    props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        pid = p['id']
        if pid in NA:
            na.append({'property': pid, 'reason': NA[pid]})
        elif os.path.exists(os.path.join(HERE, 'dst', 'props', pid.lower() + '.py')):
            checks.append({
                'property': pid,
                'quick_cmd': '%s check.py %s' % (PY, pid),
                'thorough_cmd': '%s check.py %s --tier thorough' % (PY, pid),
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': 'deterministic simulation with fault injection (seeded schedule and '
                             'fault search, reference model, minimised exact replay)',
                'level': 'exploration',
                'level_note': BASE + NOTES[pid]})
        else:
            na.append({'property': pid, 'reason': 'check not written yet'})
    out = {'version': 1,
           'setup_cmd': '%s -m compileall -q dst check.py replay.py' % PY,
           'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo are needed: the simulator works at the seams of the standard '
                    'library (threading, io, os, time) and of the caller-supplied stream.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(out, f, indent=1)
        f.write('\n')


main()
