#!/usr/bin/env python3
"""Writes ../properties.jsonl (single source of the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        **({'state':[dict(name=n,meaning=m,where=w) for n,m,w in state]} if state else {}),
        **({'observe_at':observe} if observe else {}), hook_needed=None)))

p('C01','Log tree proofs are complete and its roots are canonical',
 "For every log size, every set of requested leaves and every previously retained sizes, the proof the log produces together with the requested leaves and the retained subtree heads evaluates to the same root as hashing the whole left-balanced binary tree over the appended leaves from scratch. The head after every append is that same canonical root, whether appended through storage or statelessly.",
 ['inputs','histories'],"every tree size up to the bound, every (size, leaf subset, previous size, other retained size) tuple, every append history.",
 "The log tests sample random sizes; they never compare the root with an independent from-scratch computation nor enumerate subset/previous-size combinations.",
 ['tree/log/log.go','tree/log/verify.go','tree/log/chunk.go','tree/log/math/math.go'],
 [('balanced-subtree decomposition and copath computation','tree/log/math/math.go'),('chunked node storage','tree/log/chunk.go'),('proof generation','tree/log/log.go')],
 observe=['log.Tree.Append','log.Tree.GetBatch','log.Verifier.Evaluate'])
p('C02','Log tree proofs are binding and a bad proof is refused',
 "A verifier that retains the subtree heads of one log never computes the genuine root of a larger log from a proof in which any leaf value, retained head or proof element was changed, dropped, duplicated, added or reordered, and never accepts a log whose earlier leaves differ from the retained ones. Malformed input (wrong counts or lengths, out-of-range positions, sizes that go backwards) is answered by an error and never a crash.",
 ['inputs'],"every single-element mutation of every proof for every size, leaf subset and retained size up to the bound, and every ill-formed argument shape.",
 "Existing tests only evaluate honest proofs.",
 ['tree/log/verify.go','tree/log/log.go','tree/log/math/math.go'],
 [('evaluation of leaves, retained heads and proof elements','tree/log/verify.go')],
 observe=['log.Verifier.Retain','log.Verifier.Evaluate'])
p('C03','The prefix tree is a versioned map with a canonical root',
 "After every sequence of batched additions and removals, each stored version of the prefix tree answers searches exactly as a map holding that version's contents would: present entries are proven present with their commitment, absent entries are proven absent, and the proof evaluates to the root of that version, including for old versions and whatever way nodes are split into storage tiles. The root depends only on the contents, and a batch that adds a present entry, removes an absent one, or lists an entry twice is refused and leaves every stored version unchanged.",
 ['histories','inputs'],"all sequences of batches (additions and removals, in any order) up to the depth over a universe of keys chosen to share long bit prefixes, all searched version/key combinations, small and large tile populations.",
 "Tests insert random keys, which share few prefix bits, remove a few, and never compare the root with an independent computation over all versions.",
 ['tree/prefix/prefix.go','tree/prefix/batch.go','tree/prefix/nodes.go'],
 [('tile splitting and reassembly','tree/prefix/nodes.go'),('batched lookups','tree/prefix/batch.go'),('search and mutation','tree/prefix/prefix.go')],
 state=[('tiles','serialised subtrees, addressed by version and counter','tree/prefix/nodes.go')],
 observe=['prefix.Tree.Search','prefix.Tree.Mutate','prefix.Evaluate'])
p('C04','Prefix tree proofs cannot show false inclusion or non-inclusion',
 "Against the genuine root of a prefix tree, no proof verifies that an entry in the tree is absent, that an absent entry is present, or that a present entry has another commitment. Changing, dropping, adding or swapping any part of a genuine proof makes verification fail, unless the claim it makes is still true. No proof bytes, entry list or combination of claims makes the verifier crash.",
 ['inputs'],"all small trees over a prefix-colliding key universe, every searched key set, every alternative result kind and depth, every substituted leaf, every element permutation/omission/duplication.",
 "Tests verify only honest proofs and a handful of corruptions.",
 ['tree/prefix/verify.go','tree/prefix/proof.go'],
 [('skeleton construction from claimed results','tree/prefix/verify.go')],
 observe=['prefix.Verify','prefix.Evaluate','prefix.NewPrefixProof'])
p('C05','Before/after evaluation reproduces both roots of a prefix tree change',
 "For every prefix tree and every batch of additions and removals, the proof emitted with the change evaluates to the genuine root before it and the genuine root after it, and a description of a different change (other entry, other commitment, an omitted, extra or doubled entry) never evaluates to that pair. Malformed descriptions are refused without a crash.",
 ['histories','inputs'],"all initial trees over a prefix-colliding key universe, all add/remove batches up to the size bound, all single edits of the described change.",
 "The auditor tests cover one growing history with random keys.",
 ['tree/prefix/verify.go','tree/prefix/prefix.go'],
 [('before/after evaluation','tree/prefix/verify.go'),('combined search and mutation','tree/prefix/prefix.go')],
 observe=['prefix.EvaluateBeforeAfter','prefix.Tree.Mutate'])
p('C06','Binary ladders always decide how the greatest version relates to a target',
 "For every target version and every possible greatest version, walking the search ladder and interpreting the inclusion and non-inclusion results yields exactly whether the greatest version is below, equal to or above the target, stopping no earlier and no later than the answer is determined; leaving out lookups already implied by entries to the left or right never changes the answer. The monitoring ladder of a version is exactly the lookups of the full search ladder at or below it, so that it shows that the greatest version is at least that version.",
 ['inputs'],"all targets and greatest versions up to the bound, all sets of previously observed inclusion/non-inclusion evidence consistent with some history.",
 "Unit tests check a couple of hand-written ladders.",
 ['tree/transparency/math/ladders.go','tree/transparency/math/tracker.go'],
 [('ladder construction and interpretation','tree/transparency/math/ladders.go'),('tracking of already-implied lookups','tree/transparency/math/tracker.go')],
 observe=['math.SearchBinaryLadder','math.MonitoringBinaryLadder','math.InterpretSearchLadder'])
p('C07','The log search tree and distinguished entries follow the definition',
 "For every log size the implicit binary search tree (root, children, parent, frontier, direct paths) is the one defined by the protocol, and for every monotone timestamp vector the rightmost distinguished entry and the greatest distinguished entry preceding the last one are the ones the recursive definition gives. Updating a user's view from any earlier size provides exactly the timestamps along the paths the definition requires, accepts every honest vector, and rejects decreasing timestamps and clocks outside the allowed ahead/behind window.",
 ['inputs','configurations'],"all log sizes up to the bound, all monotone timestamp vectors over a small alphabet, all previous sizes, all monitoring-window values at the decision boundaries.",
 "Tests check a few fixed sizes.",
 ['tree/transparency/math/math.go','tree/transparency/algorithms/algorithms.go','tree/transparency/structs/config.go'],
 [('implicit binary tree arithmetic','tree/transparency/math/math.go'),('distinguished-entry recursion','tree/transparency/algorithms/algorithms.go')],
 observe=['algorithms.RightmostDistinguished','algorithms.PreviousRightmost','algorithms.UpdateView'])
p('C08','Every honest search is accepted and returns the true value',
 "After any history of updates, any client that last saw any earlier tree size (or none) can search for the greatest or any fixed version of any label and, after sending everything through the wire encoding, accepts the honest server's response and obtains exactly the value that was published for that version. A nonexistent label or version is reported as not found, and a version whose entry has passed its maximum lifetime as expired.",
 ['histories','inputs','configurations'],"all short histories over a small label alphabet with all time steps from a small set, all deployment modes, every label, version and previously seen size.",
 "No existing test runs the client at all.",
 ['tree/transparency/transparency.go','tree/transparency/client.go','tree/transparency/client_crypto.go','tree/transparency/algorithms/search.go','tree/transparency/algorithms/proof_handle.go','tree/transparency/algorithms/data_provider.go'],
 [('search walk shared by prover and verifier','tree/transparency/algorithms/search.go'),('response construction','tree/transparency/transparency.go'),('response verification','tree/transparency/client.go')],
 observe=['transparency.Tree.Search','transparency.Client.GreatestVersionSearch','transparency.Client.FixedVersionSearch'])
p('C09','A client never accepts a response that the log does not support',
 "When a response to any kind of request (search, monitoring, claiming a label, synchronising) is altered in any bit or field, has parts missing, repeated or added, is replayed from another query, another label, another version, an older tree or another log, or is produced by an operator that claims another version or value than its genuine log holds, the client returns an error or exactly the truth of that log: never another value or version, never a false not-found, and never a crash. What the client then retains (tree head, log entries, versions and commitments) is true of the log. A response that is refused, or a storage failure on the client, leaves its stored state unchanged and is reported. The positions and values of versions that an owner is told about while synchronising are proven only when the owner monitors the label (C12).",
 ['inputs','histories'],"every bit, every field-level change and every cross-substitution between responses of a set of histories and clients; every claim of a version and value against every small log, including logs whose entries contradict each other; every failing client storage operation.",
 "No existing test verifies a search response, let alone a bad one.",
 ['tree/transparency/client.go','tree/transparency/client_crypto.go','tree/transparency/algorithms/search.go','tree/transparency/algorithms/monitor.go','tree/transparency/algorithms/proof_handle.go','tree/transparency/algorithms/data_provider.go'],
 [('response verification','tree/transparency/client_crypto.go'),('received-proof consumption','tree/transparency/algorithms/proof_handle.go')],
 observe=['transparency.Client','ClientStore'])
p('C10','A client view of the log only moves forward and needs valid signatures',
 "Over every sequence of responses from honest and forked servers, a client accepts a new tree head only if it is larger than the one it retained, consistent with all entries it retained, correctly signed under the agreed configuration (and by the auditor, within its lag and start rules, exactly when third-party auditing is used), with timestamps that never go back, and within the clock window; a same-head answer is accepted only while the retained head is still fresh. The proper response of a log that extends the client's own is always accepted. After acceptance the retained state names exactly the accepted head, and it survives being saved and reloaded. This also holds when several requests are made before any response comes and when a response comes twice: the view never goes back or to another fork, and nothing that is retained about labels (monitored versions, ownership, known versions) is lost.",
 ['histories','fault_sequences','configurations','schedules'],"all sequences of responses drawn from an honest log, its older states, and forks of it, in all deployment modes, with every signature, timestamp and auditor-head deviation; all clock readings around the limits; all orders of overlapping requests.",
 "No existing test maintains a client across two responses.",
 ['tree/transparency/client.go','tree/transparency/client_crypto.go','tree/transparency/structs/tree_head.go','tree/transparency/structs/client.go','tree/transparency/algorithms/algorithms.go','tree/transparency/algorithms/data_provider.go'],
 [('tree head verification','tree/transparency/client_crypto.go'),('clock rules','tree/transparency/algorithms/algorithms.go')],
 state=[('retained client state','last accepted head, auditor head, retained subtree heads and view entries','tree/transparency/structs/client.go')],
 observe=['transparency.Client','ClientStore.PutState'])
p('C11','Contact monitoring succeeds honestly and detects a hidden change',
 "In contact monitoring, a version that a user looked up stays monitored, at an entry on the path to its right, until a distinguished entry covers it. After every history the user accepts every honest monitoring response; monitoring is recommended exactly while a distinguished entry covers something that is still monitored, ends the monitoring of everything that one covers, and repeating it comes to an end. If the server later presents a log in which a looked-up version is missing or has another value in the entries on the monitored path, the user's monitoring fails.",
 ['histories','inputs'],"all short histories, lookup points, monitoring points and monitored maps on the reference definition; all single-entry removals of a version in the log.",
 "Tests monitor fixed hand-built examples with an honest server only.",
 ['tree/transparency/monitor.go','tree/transparency/algorithms/monitor.go','tree/transparency/client.go'],
 [('monitoring map advancement','tree/transparency/algorithms/monitor.go')],
 observe=['transparency.Tree.ContactMonitor','algorithms.Monitor.ContactMonitor','transparency.Client.Monitor'])
p('C12','Owner monitoring accounts for every version and detects foreign ones',
 "A label owner who claims a label at its rightmost distinguished entry, and from then on synchronises and monitors in any order, accepts every honest response after every history and resumes from persisted state. What it stores is always true: the distinguished entry it verified up to, the version there, and the entries of the versions after it; synchronising makes that complete, and repeated monitoring reaches the rightmost distinguished entry, or the last one before a version it was not told about. If the log shows a version the owner did not expect, or hides or replaces one it expects, in a distinguished entry, the owner never goes past that entry; and no label is claimed if an entry before that claiming looks at has a greater version than the start.",
 ['histories','inputs'],"all short histories, initialisation points and monitoring schedules; all single insertions or removals of a version the owner does not know about.",
 "Tests run the owner algorithm on a fixed example with an honest server only.",
 ['tree/transparency/monitor.go','tree/transparency/algorithms/monitor.go','tree/transparency/client.go'],
 [('owner initialisation and monitoring','tree/transparency/algorithms/monitor.go')],
 observe=['transparency.Tree.OwnerInit','transparency.Tree.OwnerMonitor','transparency.Client.OwnerInit','transparency.Client.Monitor'])
p('C13','Owner updates commit exactly once and finish under every schedule',
 "A label owner's request to create versions, from whatever owner state the client reached, is handed to the sequencer exactly once with its values in order, after the versions the owner did not know about have been delivered to it. Once the versions are in a log entry the response for that entry comes exactly once, the client accepts it, and the owner then knows of every version up to it. Under every ordering of submissions, sequencing, answers, refusals, reads and cancellations every request ends: a submission the sequencer refuses is reported as an error, the response stream is always closed, and after a cancellation nothing is left running.",
 ['schedules','histories'],"all short histories and owner states; all orderings, up to the depth bound, of start, read, submit, sequence, answer, refuse and cancel events of one or two concurrent updates, on one or two labels, with and without third-party management.",
 "The update path has no server-level test.",
 ['tree/transparency/update.go','tree/transparency/client.go','tree/transparency/algorithms/update.go','tree/transparency/mutate.go'],
 [('update request queue','tree/transparency/update.go'),('update proof','tree/transparency/algorithms/update.go')],
 observe=['transparency.Tree.Update','transparency.Client.Update'])
p('C14','Sequencing assigns gap-free versions and is all-or-nothing',
 "Over every sequence of mutation batches, an accepted batch appends exactly one log entry, gives each new value of a label the next version starting at zero in batch order, removes a label exactly when it is requested and eligible, and every published version is afterwards found at that entry. A batch that is refused, or that fails at any storage operation, leaves the published log and the outcome of every later batch as if it had not been submitted.",
 ['histories','inputs','fault_sequences'],"all sequences of up to the depth bound of batches over two labels with additions, removals, invalid items and time steps, and an injected failure at every storage call.",
 "Tests run a few fixed batches and never inspect state after an error.",
 ['tree/transparency/mutate.go','tree/transparency/transparency.go'],
 [('batch validation, version assignment and commit','tree/transparency/mutate.go')],
 state=[('label index and version values','entries at which each version was published','db/db.go')],
 observe=['transparency.Tree.Mutate','transparency.Tree.Search'])
p('C15','A crash at any point leaves a consistent, resumable log',
 "If the process stops before or after any write that reaches the on-disk store, reopening it yields exactly the log before or exactly the log after the interrupted batch: its tree head, log nodes, prefix tree, label index and version values agree, searches succeed, and further batches continue with the right versions. A batch reported as successful is never lost.",
 ['crash_points','histories'],"every write and every byte-prefix of the final log write of every short batch history, followed by further batches.",
 "The on-disk store has no tests.",
 ['db/leveldb.go','tree/transparency/mutate.go'],
 [('batched commit','db/leveldb.go')],
 observe=['db.TransparencyStore','transparency.NewTree','transparency.Tree.Search'])
p('C16','Storage backends behave as the key-value contract requires',
 "Over every sequence of store operations, each backend returns exactly what a plain map with a pending write set would: a writer reads its own writes before they are committed, what was committed is what readers see, absent records are reported the way the library expects, and values handed in or out are not aliased with stored ones. All backends agree with each other.",
 ['histories'],"all operation sequences up to the depth bound over a tiny key/value alphabet, on every backend, with interleaved readers and reopen.",
 "No store tests exist.",
 ['db/leveldb.go','db/memory/memory.go','db/db.go'],
 [('pending batch overlay','db/leveldb.go'),('maps','db/memory/memory.go')],
 observe=['db.TransparencyStore','db.LogStore','db.PrefixStore'])
p('C17','The auditor signs only append-only, eligible changes and stays in step',
 "Fed the honest stream of updates of any history, the auditor accepts each one and signs exactly the head the log published. It refuses an update that is skipped, repeated, reordered, altered, back-dated, or removes an entry too early, and after a refusal or a storage failure its state is unchanged, it has issued no signature, and it still accepts the correct next update.",
 ['histories','inputs','fault_sequences'],"all short mutation histories with additions and removals, every single deviation of the update stream, a failure at every store call, and restart at every point.",
 "The auditor test feeds one honest history.",
 ['tree/transparency/auditor/auditor.go','tree/transparency/auditor/state.go'],
 [('update processing','tree/transparency/auditor/auditor.go')],
 observe=['auditor.Auditor.Process','auditor.Auditor.Commit'])
p('C18','Wire and state encodings round-trip and refuse malformed bytes',
 "Every message and stored state decodes from its own encoding to the same value, the encoding is unique and a decoder given a truncated, extended or corrupted message returns an error or a value that re-encodes to the same bytes, and never crashes or allocates without bound. Strings and lists too long for their length field are refused when encoding.",
 ['inputs','configurations'],"all small values of every message and state type over boundary alphabets in every deployment mode, every truncation, every one-byte extension and every single-byte mutation of their encodings.",
 "There are no round-trip tests for messages and client state.",
 ['tree/transparency/structs/operations.go','tree/transparency/structs/structs.go','tree/transparency/structs/client.go','tree/transparency/structs/proofs.go','tree/transparency/structs/tree_head.go','tree/transparency/structs/config.go','tree/transparency/structs/third_party.go','tree/transparency/auditor/state.go','tree/prefix/proof.go'],
 [('marshal/unmarshal pairs','tree/transparency/structs')],
 observe=['structs.*.Marshal','structs.New*'])
p('C19','VRF outputs are unique, provable and unforgeable by alteration',
 "For every key and input the proof produced verifies under the matching public key to the same output the prover computed, on every supported suite. A proof, input or public key altered in any byte is refused or, if accepted, yields the same output for the same input; two different inputs do not share an output, and malformed keys or proofs are refused without a crash.",
 ['inputs'],"a fixed set of keys and inputs on both suites with every single-bit change and every truncation/extension of proofs and keys.",
 "Tests verify a few published vectors.",
 ['crypto/vrf/edwards25519/edwards25519.go','crypto/vrf/p256/p256.go'],
 [('ECVRF prove/verify','crypto/vrf')],
 observe=['vrf.PrivateKey.Prove','vrf.PublicKey.Verify'])
p('C20','Commitments and signatures bind every field they cover',
 "A commitment opens only to the label, version, update value and opening it was made with, and no two distinct tuples share one, whatever the boundary between fields. A tree-head, update or auditor signature verifies only for exactly the configuration, size, root and other fields that were signed, under the key of the party it is attributed to.",
 ['inputs','configurations'],"all pairs of small tuples over boundary alphabets and all single-field changes of every configuration and signed structure, in every deployment mode and both suites.",
 "Tests sign one structure and do not vary fields.",
 ['crypto/commitments/commitments.go','tree/transparency/structs/crypto.go','tree/transparency/crypto.go','crypto/suites/kt_sha256_ed25519.go','crypto/suites/kt_sha256_p256.go'],
 [('to-be-signed encodings','tree/transparency/structs/crypto.go'),('commitment encoding','crypto/commitments/commitments.go')],
 observe=['commitments.Commit','commitments.Verify','structs.*TBS'])
p('C21','A service operator counts each label\'s versions without gaps',
 "Over every sequence of managed updates of several labels, each accepted value carries a valid service-operator signature over exactly its label, version and value, versions of a label start at zero and rise by one, and neither batching, concurrency nor the order of labels leaves a gap or gives a version twice. Every other request is handed on unchanged.",
 ['histories'],"all sequences of managed updates up to the depth bound over a small label alphabet.",
 "The managed log has no tests.",
 ['tree/transparency/managed/managed.go','db/memory/memory.go'],
 [('version counters','tree/transparency/managed/managed.go')],
 observe=['managed.ManagedLog'])
p('C22','A request served while the log grows gets a true and acceptable response',
 "A request that is served while entries are added to the log, any number of them between any two of the server's reads of the store and on either backend, gets a response that the client accepts and that is true of the log at the size of the tree head it was served with. An owner whose update was sequenced always gets its response, no matter what is sequenced after it. If a label is removed meanwhile its values may be unavailable, but never is another value returned for it.",
 ['histories','schedules'],"histories of a few entries, every client state along the way, every request, and growth by one or two jumps of one or more entries before every single read of the server; the on-disk store likewise before every read it makes of its database.",
 "Tests never change the log while a request is served.",
 ['tree/transparency/transparency.go','tree/transparency/monitor.go','tree/transparency/update.go','tree/transparency/crypto.go','db/leveldb/leveldb.go','db/memory/memory.go'],
 [('trimming of label indices','tree/transparency/crypto.go'),('order of reads of tree heads','db')],
 observe=['transparency.Tree.*','transparency.Client.*','db.TransparencyStore.GetTreeHead'])
p('C23','No request harms a server or its log',
 "Whatever a request of any kind contains, a server answers or refuses it after a bounded amount of work, without a crash, and with the log unchanged; requests that no honest client in any state would make (sizes the log never had, monitoring maps that are out of order or off the path of their version, starting points that do not exist) are refused, and valid ones are answered. Updates are taken only in the form that the deployment mode calls for: signed by the service operator if and only if the log is managed by a third party. After any update, accepted or refused, the log serves every label as before.",
 ['inputs','configurations'],"every field of every request over its boundary values, and every single changed byte of honest requests, against logs in each deployment mode, empty ones and ones with removed labels included.",
 "Tests only make valid requests.",
 ['tree/transparency/transparency.go','tree/transparency/monitor.go','tree/transparency/update.go','tree/transparency/crypto.go'],
 [('checks of advertised sizes','tree/transparency/transparency.go'),('checks of monitoring maps','tree/transparency/monitor.go'),('update signatures','tree/transparency/update.go')],
 observe=['transparency.Tree.*'])
p('C24','A storage failure costs the request at hand and nothing else',
 "When a read, write or commit of the server's or a client's storage fails at any moment, the request at hand gets an error or its right answer, never a wrong one: a client is told no other value, is not led to believe that the operator misbehaves, and keeps its state as it was. Afterwards the same server and the same client handle every request as if nothing had happened. An entry that fails to be added leaves no trace, in the store or in later entries; an update is handed over for sequencing at most once, and its owner comes to know every version that was sequenced. Records that were damaged on the server's side never make a client accept another value.",
 ['histories','fault_sequences'],"all histories of a few entries, every client that could have come about, every request, update and batch, with every single storage operation of the server, of the client and of the on-disk database failing, and every record the server reads lost, cut, extended or changed.",
 "No test makes a storage operation fail.",
 ['tree/transparency/transparency.go','tree/transparency/monitor.go','tree/transparency/update.go','tree/transparency/mutate.go','tree/transparency/client.go','db/leveldb.go'],
 [('handling of storage errors','tree/transparency'),('commits','db/leveldb.go')],
 observe=['transparency.Tree.*','transparency.Client.*','db.NewLDBTransparencyStore'])
p('C25','Releases understand each other\'s data, states and messages',
 "Whatever outlives a process or leaves it keeps its format and its meaning. Take the published release (the repository as committed) and the current tree: at any point of any history, either can go on with the other's store, a client's, owner's or auditor's stored state, and any of clients, owners, servers, service operators and auditors of one can deal with any of the other, with the results that one release alone would have had, and true ones. Everything that is hashed, signed, fed to the VRF, sent or stored is encoded as it was; keys, proofs, signatures and commitments of one verify with the other.",
 ['histories','configurations','inputs'],"every history of a few entries with each entry added by either release, every client state reached by exchanges between any pair of them, every assignment of client, server, operator and auditor to a release, on either store, and long logs with many labels and versions; every sample of every encoding.",
 "Tests read back only what the same code wrote, and contain no data of a past release.",
 ['tree/transparency/structs/structs.go','tree/transparency/structs/crypto.go','tree/transparency/structs/tree_head.go','tree/transparency/auditor/state.go','tree/log/chunk.go','tree/prefix/nodes.go','tree/transparency/crypto.go','crypto/suites/suites.go','crypto/commitments/commitments.go','db/leveldb.go'],
 [('encodings of messages and client states','tree/transparency/structs'),('stored indices and versions','tree/transparency/crypto.go'),('stored tree nodes','tree/prefix/nodes.go'),('database keys','db/leveldb.go')],
 observe=['transparency.Tree.*','transparency.Client.*','auditor.Auditor','db.NewLDBTransparencyStore'])
p('C26','What a process does at the same time does not interfere',
 "A process does many things at once: it serves requests (with one log object, or one for each request, over clones of one store), adds entries, audits, and acts as client, sharing a configuration, cipher suite and keys. Each has the result it would have had alone, at whatever point it is interrupted by another: the answers, the data that is kept, the heads that are signed. Data that was returned stays as it is while other calls are made, arguments are left unchanged, and the same call later returns the same. Calls and jobs that share a cipher suite, keys, or clones of a store have no data race.",
 ['schedules','inputs'],"every pair of jobs, interrupted at every use of a store, key or hash and at every message in transit; every pair of calls of functions that return data, one after another and at once.",
 "Tests do one thing at a time, and look at results before anything else is done.",
 ['tree/transparency/transparency.go','tree/transparency/algorithms','tree/transparency/math','tree/prefix','tree/log','crypto/commitments/commitments.go','crypto/vrf','crypto/suites','db'],
 [('the state of a log object','tree/transparency/transparency.go'),('keys','crypto/vrf/p256/p256.go'),('commitments','crypto/commitments/commitments.go'),('clones of stores','db')],
 observe=['transparency.Tree.*','transparency.Client.*','auditor.Auditor','commitments.Commit','vrf.PrivateKey.Prove','db.TransparencyStore.Clone'])
p('C27','A log of any size is served like a small one',
 "At every size up to 2^63 entries, and whatever the distances between the entries that concern a label, the log does what it does when it's small: searches give the version and value there is (or its absence), monitoring, ownership and updates succeed, clients retain the true subtrees, entries and positions, auditors accept entries and sign the true head, and nothing takes more than a number of operations that is logarithmic in the size. At 2^63 entries, further ones are refused.",
 ['inputs','histories'],"logs that grow to a size around every power of two from 2^4 to 2^63, several times and by different amounts, with entries in between, in every deployment mode; every request of every client state reached on the way.",
 "Tests have logs of at most a few hundred entries; positions, levels and subtree counts of large logs never occur.",
 ['tree/log/math/math.go','tree/log/log.go','tree/log/verify.go','tree/log/chunk.go','tree/transparency/math/math.go','tree/transparency/crypto.go','tree/transparency/algorithms','tree/transparency/client_crypto.go','tree/transparency/auditor'],
 [('numbers of nodes','tree/log/math/math.go'),('search tree over the log','tree/transparency/math/math.go'),('stored indices','tree/transparency/crypto.go'),('subtrees of the auditor and the client','tree/log/log.go')],
 observe=['transparency.Tree.*','transparency.Client.*','auditor.Auditor','log.Append','log.Root'])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
