#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. Properties listed in PENDING are not claimed yet."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(ROOT + '/properties.jsonl')]
PENDING = {}
if not os.path.exists(ROOT + '/mc/props/c21.go'):
    PENDING['C21'] = 'its check is still being built'
PROG = "stateless bounded-exhaustive exploration of builder programs on the real code, against a reference model of the messages"
VALS = "bounded-exhaustive enumeration of inputs and placements on the real encoders, against an independent decoder"
WIRE = "bounded-exhaustive enumeration of server scripts, deliveries and fault points on the real connection code"
SCHED = "stateless exploration of all thread interleavings up to a preemption bound on the real code under a controlled scheduler"
T = {
 'C01': (PROG, "every operation sequence / nesting up to the stated depth over the full operation alphabet, and every size in the stated ranges; trusts the independent decoder in mc/xwire"),
 'C02': (VALS, "all small integers, structured wide ones (all 2^32 in the thorough tier), every length class, every wrapper and pointer kind"),
 'C03': (VALS, "as C02, through rows, assignments and operands"),
 'C04': (VALS, "every constructor and operand kind, all trees to the stated depth over a representative set"),
 'C05': (VALS, "every second of a day and every carry, extremes, several zones, years from -1000000 to 292277022399"),
 'C06': (PROG, "every initial capacity up to beyond the message size, every prior use out of the stated set"),
 'C07': ("exhaustive fault placement: every kind of rejection at every position of every program shape up to the bound", "failures of the kinds listed; values of other unsupported types are represented by examples"),
 'C08': (PROG, "every nesting, misuse and position up to the stated depth"),
 'C09': (PROG, "every nesting of brackets to the stated depth, bodies that succeed or fail"),
 'C10': ("explicit exploration of all histories of a simulated X Protocol server driven by the real builder, connection and pool, with every placement of up to k faults", "the server is a model (transactions, implicit commit, expectation blocks, disconnects); client code is the real code"),
 'C11': (WIRE, "all reply sequences up to the bound, all sizes around the read buffer, all one/two-point splits"),
 'C12': (WIRE, "a failure at every byte of a representative reply stream and every kind of malformed frame at every position"),
 'C13': (WIRE, "all sequences of contexts up to the bound"),
 'C14': ("exhaustive exploration of all server reply sequences against the real connector over loopback TCP, TLS and Unix sockets", "the reply alphabet listed in DESIGN.md; the generic Ok message is not used as an answer to authentication"),
 'C15': (VALS, "every length and structured contents; the proof is verified as the server would"),
 'C16': ("exhaustive exploration of all server behaviours up to the bound against the real connector, monitoring every byte sent in clear", "the certificate and reply alphabets listed in DESIGN.md"),
 'C17': ("exhaustive exploration of all failure points of a connection attempt over real sockets, monitoring the release of the socket", "a socket not closed within 3 s of the failure counts as leaked"),
 'C18': (SCHED, "all interleavings of the stated small configurations up to the preemption bound at statement granularity"),
 'C19': (SCHED, "all interleavings of the stated small configurations up to the preemption bound at statement granularity"),
 'C20': ("exhaustive exploration of all operation sequences on the real pool against a reference queue model", "up to the stated number of operations, outstanding sends and pool sizes"),
 'C21': (SCHED, "all interleavings of two threads up to the preemption bound at statement granularity, compared with the sequential results"),
 'C22': (PROG, "every operation, data size class and moment of change; memory is compared byte for byte"),
 'C23': (VALS, "all short decimals, structured ones up to 65 digits, against arbitrary-precision arithmetic"),
 'C24': ("exhaustive enumeration of identifiers against a reference table", "the reference table is MySQL 8.0.27's"),
 'C25': (PROG, "every program of captures and uses up to the bound"),
 'C26': (VALS, "structured ids (all 2^32 in the thorough tier), every length class"),
 'C28': ("exhaustive exploration of all histories of building, sending and resetting up to the stated depth on the real code", "connections are recording fakes"),
 'C29': ("exhaustive enumeration of the constants against a reference table, and of error replies through the real connection code", "the reference numbers are MySQL's and the X Plugin's"),
 'C27': (VALS, "every length and structured value of every exported low-level encoder"),
}
checks = []
for p in props:
    i = p['id']
    if i in PENDING:
        continue
    tech, note = T[i]
    checks.append(dict(property=i, quick_cmd='./run.sh %s quick' % i, thorough_cmd='./run.sh %s thorough' % i,
        evidence_file='evidence/%s.json' % i, technique='model checking: ' + tech, level='model_checking',
        level_note='Exhaustive within the bounds reported in the evidence file. ' + note + '.'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
    not_applicable=[dict(property=k, reason=v) for k, v in sorted(PENDING.items())],
    notes='No hooks in /repo. Findings: KNOWN_FINDINGS.md. Design, bounds and the seeded-bug table: DESIGN.md.')
open(ROOT + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
