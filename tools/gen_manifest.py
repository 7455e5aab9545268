#!/usr/bin/env python3
"""Writes ../MANIFEST.json from the table below and properties.jsonl."""
import json, os
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.join(here,'..')
ids=[json.loads(l)['id'] for l in open(os.path.join(root,'properties.jsonl'))]
T='stateless model checking of the implementation: '
CH={
'C01':('exploration',T+'bounded-exhaustive enumeration of sizes, leaf subsets and retained sizes against a reference Merkle tree','Complete for the stated sizes; larger sizes at chunk and power-of-two boundaries only. Trusts the 60-line reference and SHA-256.'),
'C02':('exploration',T+'exhaustive single-edit and two-fork adversary over all small proofs','Complete for one edit of a proof, or any mix of two forks; combinations of unrelated edits are outside the bound. Trusts SHA-256.'),
'C03':('model_checking',T+'explicit-state exploration of all batch sequences over shaped key universes, every stored version compared with a map','Complete for the stated key universes and sequence depths, at every visited state. Trusts SHA-256 and the reference map/tree.'),
'C04':('exploration',T+'exhaustive proof-edit adversary over all small trees, entry lists and claims','Complete for the stated trees and edit set (every single field edit, element drop/duplicate/swap, every claim). Trusts SHA-256.'),
'C05':('exploration',T+'exhaustive enumeration of trees, batches and false batch descriptions','Complete for the stated key universes; one auditor-side limitation of the protocol is listed as a known finding.'),
'C06':('exploration',T+'exhaustive enumeration of targets, greatest versions, evidence subsets and result vectors, and of whole searches with omission','Complete for the stated bounds; larger versions at power-of-two boundaries only. Assumes prefix proofs are sound (C04).'),
'C07':('exploration',T+'exhaustive enumeration of log sizes, monotone timestamp vectors, windows and clock offsets under a controlled clock, against the recursive definition','Complete for the stated sizes and timestamp domains; larger logs at power-of-two boundaries only.'),
'C08':('model_checking',T+'all short update histories on the real server, every client state reachable by searching along the way, every query, and an injected failure at every server storage operation, against a reference model','Complete for the stated histories, client states and queries (client states per size are capped at the stated number). Symmetric stand-ins replace signatures and VRF; C19 and C20 cover the real ones.'),
'C09':('exploration',T+'every exchange of every client of a set of histories x every bit, part, other response and combination of the parts of two responses; every claim of a version and value, with as much of a proof as exists, against every small log; and every failing storage operation of the client','Complete for the stated histories, edits and claims; several unrelated edits of one response are outside the bound, except all mixtures of two responses. Symmetric stand-ins replace signatures and VRF.'),
'C10':('model_checking',T+'explicit-state exploration of everything a client can come to retain from a family of forked, validly signed logs, each state shown every response of every fork to every request under every tree head; all clock readings around the limits; all auditor heads; and all pairs of overlapping requests and replayed responses on the real server','Complete for the stated families of forks (depth and letters), timestamps and auditor heads; overlaps of two requests with up to two replays. Symmetric stand-ins replace signatures and VRF.'),
'C11':('model_checking',T+'all short and many long histories x every client reachable by looking up and monitoring along the way, on the real server; and every single-version lie over every interval of entries told by an operator whose proofs are genuine','Complete for the stated histories, client states (capped per size as stated) and lies. Symmetric stand-ins replace signatures and VRF.'),
'C12':('model_checking',T+'all short and many long histories x every owner reachable by looking up, claiming, synchronising and monitoring along the way, on the real server; and every single-version lie (hidden, replaced, unknown or premature versions) over every interval of entries told by an operator whose proofs are genuine','Complete for the stated histories, client states (capped per size as stated) and lies. Symmetric stand-ins replace signatures and VRF.'),
'C13':('model_checking',T+'all histories and owner states x updates finished at once or an entry later, and all schedules of start, read, submit, sequence, answer, refuse and cancel events of concurrent updates, each replayed on the real server and client with a controlled sequencer and clock, all remaining work run to its end afterwards','Complete for the stated histories, owner states (capped per size as stated), setups and schedule depth. Goroutines are interleaved at their channel operations, not at memory accesses. Symmetric stand-ins replace signatures and VRF.'),
'C14':('model_checking',T+'explicit-state exploration of batch sequences, refused ones included, on both kinds of backend, and of every failing storage operation, against a reference model of the whole log','Complete for the stated batches, depths and timings. Assumes a failing write aborts the transaction; the toy suite stands in for the real ones.'),
'C15':('fault_enumeration',T+'enumeration of every byte prefix of what a commit writes to the on-disk store, reopened, compared with the reference model, continued, and crashed again','Complete for the stated histories. Process stop only, not loss of power. Trusts goleveldb outside of what is exercised.'),
'C16':('model_checking',T+'explicit-state exploration of store operation sequences on both backends against a map with a pending write set','Complete for the stated operation alphabet and depths. Trusts goleveldb.'),
'C17':('model_checking',T+'explicit-state exploration of an auditor shown every possible update, honest or not, in every state accepted updates lead to; all sequences from a pool of genuine, repeated and foreign updates; every single change or bit flip of an update; every failure of store and key; and the real log over all short histories','Complete for the stated key universes, time steps and depths. One known finding (a protocol limit) is not explored past. The toy suite stands in for real signatures.'),
'C18':('exploration',T+'exhaustive enumeration of small values of every message and state, all truncations, extensions and byte corruptions of their encodings','Complete for the stated field domains and corruptions.'),
'C19':('exploration',T+'exhaustive single-bit, truncation and extension enumeration of proofs, keys and inputs on both real suites','Complete for the stated keys and inputs. Trusts the standard library curve arithmetic.'),
'C20':('exploration',T+'exhaustive enumeration of tuples over boundary alphabets per encoding, of all pairs of commitments, of all single bits of signatures and messages, and of all single-field differences between signer and verifier in whole searches','Complete for the stated alphabets. Trusts SHA-256, the standard library signature code, and that collisions are found by comparing encodings.'),
'C21':('model_checking',T+'all sequences of managed updates on two stores, and all interleavings of concurrent updates at their visible steps','Complete for the stated alphabet, depth and concurrency. Trusts that the operator supplied store increments atomically.'),
'C22':('model_checking',T+'all histories x clients x requests x points between two storage reads of the server at which the log grows, on the real server with both backends (a read hook in the on-disk database library)','Complete for the stated histories, clients and up to two jumps of growth per request. Symmetric stand-ins replace signatures and VRF.'),
'C23':('exploration',T+'exhaustive enumeration of requests over boundary values of every field, and of all single-byte changes of honest requests, against the real server','Complete for the stated logs and field domains. Symmetric stand-ins replace signatures and VRF.'),
'C24':('fault_enumeration',T+'all short histories x clients x requests, updates and batches x every single failing storage operation of the server, the client and the on-disk database (through a hook in the database library), and every damaged record','Complete for the stated histories, clients (capped per size as stated) and single failures. Damaged records may crash a server: the store is trusted to return what was written. Symmetric stand-ins replace signatures and VRF.'),
'C25':('model_checking',T+'the current tree paired with a frozen copy of the published release: all short histories with each entry added by either, all client states reached by exchanges between any pair of them, all assignments of updates, audits and databases to either, and byte-wise comparison of all sample encodings','Complete for the stated histories, masks and samples (client states per size are capped at the stated number). The published release is the reference for what is acceptable, the ledger for what is true.'),
'C26':('model_checking',T+'all pairs of jobs x all points of interruption under a controlled scheduler, results compared with those alone; all pairs of calls, one after another, and at once under the race detector, which justifies switching only at points of synchronisation','Complete for the stated jobs, with one switch at every point, or two at the coarser ones. Switches inside a hash, key or store operation are left to the detection of data races. Trusts the race detector.'),
'C27':('model_checking',T+'all requests of all client states reached along each of a family of histories whose logs grow to sizes around every power of two; the real server, client and auditor work on a store that computes the nodes of long runs of equal entries when they are read, and all results are compared with a reference','Complete for the stated histories and a bounded number of client states after each event. The long stretches of the log are runs of equal entries, put in place by the harness.'),
}
checks=[]; na=[]
for i in ids:
    if i in CH:
        lv,t,n=CH[i]
        checks.append(dict(property=i,quick_cmd=f'./run.sh {i} quick',thorough_cmd=f'./run.sh {i} thorough',technique=t,level=lv,level_note=n))
    else:
        na.append(dict(property=i,reason='check not built yet'))
m=dict(version=1,setup_cmd='./setup.sh',checks=checks,not_applicable=na,notes='No hooks in /repo: the harness (a separate Go module in mc/) uses exported API only and is built from /repo\'s working tree on every run.')
json.dump(m,open(os.path.join(root,'MANIFEST.json'),'w'),indent=1)
