#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ('Seeded search over %s. The code of /repo runs unmodified (compiled with AddressSanitizer) on a deterministic scheduler with a virtual clock; '
        'the network and the gRPC core are simulated. Assurance: no violation on the explored seeds (counts in the evidence file); trusted: the simulator, the oracle, Qt itself. %s')
checks = {
    'C01': ('servers that answer, fail, stall or break off, overlapping and nested calls, timeouts and aborts', ''),
    'C02': ('message contents, segmentations, statuses and transport errors with concurrent calls', 'Oracle: the message libprotobuf built on the server side.'),
    'C03': ('message sequences, segmentations, delays and actions inside handlers', 'Oracle: reference parse of the byte stream.'),
    'C04': ('stream lengths, closing statuses and positions of the end on both channels', ''),
    'C05': ('sequences of connection failures at all byte positions and their timings', ''),
    'C06': ('instants of aborts relative to deliveries, failures, reconnects and completions', ''),
    'C07': ('histories of subscribe, end, break, abort and resubscribe', ''),
    'C08': ('interleavings of application threads, event loop and worker threads with basic block preemption', ''),
    'C09': ('instants of destruction of clients and channels', 'AddressSanitizer decides memory safety.'),
    'C10': ('mutations of replies and stream frames combined with segmentations', 'AddressSanitizer decides memory safety.'),
    'C11': ('interleavings of first use, registration, encoding and decoding at basic block granularity', ''),
    'C12': ('states of active streams at channel replacements and histories of replacements', ''),
    'C13': ('operations, failures, arguments and credentials changing between attempts', 'Every request is checked as the server receives it.'),
    'C14': ('property changes, server messages, failures and destructions of QML elements', ''),
    'C15': ('histories of plugin load attempts and lookups with a fault in each attempt', ''),
    'C16': ('mixtures of succeeding and failing operations of several clients', ''),
    'C17': ('long mixtures of operations of every kind, ended in every way, with their handles kept or dropped', ''),
}
na = {
    'N01': 'A pure function of the message value: no schedule, clock, I/O, fault or second party takes part, so simulating them cannot reach what plain input generation does not. The codec is exercised against libprotobuf as part of C02 and C11.',
    'N02': 'The generator is a pure function from proto files to text, run once at build time; no concurrency, time, fault or history.',
    'N03': 'A pure function of the message value; the JSON serializer is also left out of this build (private Qt headers are missing).',
    'N04': 'Pure value conversions; no schedule, clock, I/O or fault takes part.',
}
done = json.load(open(os.path.join(V, 'tools', 'claimed.json')))
m = {
    'version': 1,
    'setup_cmd': 'python3 tools/build.py',
    'checks': [{'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
                'technique': 'deterministic simulation with fault injection, seeded search', 'level': 'exploration', 'level_note': (NOTE % checks[p]).strip()} for p in done],
    'not_applicable': [{'property': p, 'reason': r} for p, r in na.items()] + [{'property': p, 'reason': 'check under construction'} for p in checks if p not in done],
    'notes': 'No hooks in /repo are needed: all seams are symbols interposed at link level. Replay: build/vsim replay FILE -v.',
}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
