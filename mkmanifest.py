"""Writes MANIFEST.json from the checks there are (run by hand)."""
import importlib
import json
import os
import sys

sys.path[:0] = ['/repo', os.path.dirname(os.path.abspath(__file__))]
TECHNIQUE = {
    'C': 'runtime monitor: reference-model oracle over generated training and scoring histories of the real classifier',
    'S': 'runtime monitor: real storage in real processes under kills, faults and contention; offline checking of files and histories',
    'K': 'runtime monitor: lockstep model of corpus and directory over generated histories, with recorded filesystem and signal events',
    'T': 'runtime monitor: recorded signals and counts against a ledger of the corpora',
    'M': 'runtime monitor: round-trip and reference oracles over generated messages',
    'X': 'runtime monitor: constructive and metamorphic oracles over generated and hostile messages',
    'B': 'runtime monitor: independent implementation of the file format in lockstep',
    'I': 'runtime monitor: reference oracle over generated and enumerated addresses',
    'E': 'runtime monitor: whole sessions in separate processes against a ledger of the messages; recorded signals, files and scores',
    'D': 'runtime monitor: recorded resolver calls against a scripted resolver with injected failures',
    'L': 'runtime monitor: scripted network with injected failures; recorded requests and scores',
}
TECH = {
    'K07': 'recorded concurrent histories of processes and threads, with injected delays; offline checking per key',
    'X08': 'runtime monitor: CPU time measured over generated repetitive messages at two sizes',
    'K06': 'fault injection at interpreter events, bytes and system errors of adding a message; monitor of the directory afterwards',
    'C05': 'runtime monitor: concurrent threads with injected yields; every result checked against a sequential oracle',
    'S03': 'fault injection at every interpreter event, byte and step of saving; monitor of the file afterwards',
    'S04': 'recorded concurrent histories of processes and threads; offline linearizability checking',
}


def main():
    here = os.path.dirname(os.path.abspath(__file__))
    props = [json.loads(line) for line in open(os.path.join(here, 'properties.jsonl'))]
    checks = []
    for p in props:
        i = p['id']
        if not os.path.exists(os.path.join(here, 'checks', i + '.py')):
            print('no check for', i)
            continue
        m = importlib.import_module('checks.' + i)
        note = ' '.join(m.RULE.split()) + ' Assumes: ' + '; '.join(m.ASSUMPTIONS) + '.'
        checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i,
                       'thorough_cmd': './run.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': TECH.get(i, TECHNIQUE[i[0]]),
                       'level': m.LEVEL, 'level_note': note})
    json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []},
              open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
