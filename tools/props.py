#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (python3 tools/props.py > properties.jsonl)."""
import json, sys
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "A vault location holds exactly the last secret written to it",
 "Under every sequence of writes, overwrites, copies, revocations, deletions, garbage collections and procedure uses, a location of a client is usable exactly when it has been written and not revoked or deleted since, and then holds exactly the last value written. Existence queries for records and vaults agree with this, before and after garbage collection, and an operation that fails leaves the content of every location as it was. A revoked location becomes writable again once it has been garbage collected.",
 ["histories", "inputs"], "every operation history up to a depth over 2-4 locations in two vaults, and every operation from every reachable abstract state",
 "the unit tests run a handful of fixed scripts; lifecycle bugs need particular orders (revoke, copy, collect, rewrite) that multiply beyond hand-written cases",
 ["client/src/types/client.rs", "client/src/types/vault.rs", "engine/src/vault/view.rs", "engine/src/vault/types/transactions.rs"],
 [("record data/revocation transactions", "engine/src/vault/view.rs"), ("vault guards around procedures", "client/src/types/client.rs get_guard/exec_proc")],
 [("Record", "data transaction plus optional revocation", "engine/src/vault/view.rs")], ["record_exists", "vault_exists", "procedure results"])

prop("C02", "Different locations, vaults, clients and store keys never alias",
 "Two locations that differ in vault path or record path are different records, for every pair of paths (empty, prefix-related, long, binary, counter locations included), and so are equal locations of two different client paths and equal keys in two stores. Writing, revoking, deleting or collecting through one of them never changes whether another exists or what it holds. Deriving an identifier from the same path always gives the same identifier, within a session and across a commit and a reload.",
 ["inputs", "histories"], "every ordered pair of paths from a list of adversarial paths, for vault path, record path, client path and store key, each combined with every mutating operation",
 "tests use random or short readable paths, which cannot hit concatenation, truncation, padding or counter collisions",
 ["client/src/types/location.rs", "client/src/utils.rs", "engine/src/vault/base64.rs", "engine/src/vault/types/utils.rs", "client/src/types/stronghold.rs"],
 [("HMAC derivation of ids from paths", "client/src/utils.rs, client/src/types/location.rs")], (), ["record_exists", "procedure results", "Store::get"])

prop("C03", "What is committed comes back after reload, and nothing else",
 "After a commit and a load in a fresh instance with the same key, every client that was part of the commit has exactly the vault records, revocations and store entries it had when it was last written to the snapshot, and no other client, record or entry exists. This holds for every history of creating, writing, purging, unloading and reloading clients and of repeated commits to the same or different files, with the key passed by the caller or held in the snapshot, and whatever the name of the snapshot file: each path is a file of its own, and a commit leaves every other file in its directory as it was. Loading or committing never changes the live content of clients that are already loaded.",
 ["histories"], "every history up to a depth over two clients, two locations each, their stores, two snapshot files and two snapshot keys, followed by commit, reload and full comparison",
 "the tests commit one fixed state; lost, stale or resurrected entries appear only for particular interleavings of write, purge, unload, commit and load",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "engine/src/snapshot"],
 [("snapshot state serialisation per client", "client/src/types/snapshot.rs"), ("commit/write_client/load_client", "client/src/types/stronghold.rs")],
 [("Snapshot.states", "encrypted client states by client id", "client/src/types/snapshot.rs")], ["fresh Stronghold loading the file"])

prop("C04", "A snapshot file is replaced atomically and durably",
 "If the process or machine stops at any point of a commit, a later load of that path with the right key yields either the complete previous snapshot or the complete new one, and the new one once commit has returned success. If file-system calls fail during a commit, a commit that still reports success is complete and durable, one that reports an error leaves the previous snapshot (or the complete new one) loadable, and a later commit without faults succeeds. A load that meets failing calls reports an error or returns the complete content, and changes nothing. The rule holds for a first commit, an overwrite with a shorter or a longer snapshot and for repeated commits.",
 ["crash_points", "fault_sequences"], "every prefix of the recorded file-system call log of a commit, every allowed loss or tearing of calls not yet synced, and an injected failure or short write at every single call",
 "a test cannot stop the process between two system calls or drop unsynced data",
 ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "client/src/types/stronghold.rs"],
 [("write to temporary file, fsync, rename", "engine/src/snapshot/logic.rs")], (), ["load of the recovered directory image"])

prop("C05", "Damaged snapshots and wrong keys are refused without harm",
 "Loading a snapshot file that differs from a committed one in any way (any changed bit, truncation at any length, appended or spliced bytes, swapped header) or with a key other than the one it was committed with returns an error, never panics, aborts or hangs, and never yields any part of the content. The session that attempted the load keeps its clients, secrets and store unchanged and stays fully usable. The same holds for every key provider whose key differs in any bit, and, at the engine level, for every other associated data than the file was written with.",
 ["inputs"], "every single-bit flip, every truncation length, a set of appends and splices at every field boundary of small snapshot files, and every one-bit change of the key; associated data of 22 lengths against every near miss; damage spread over files of up to a megabyte",
 "tests change at most one byte of one file; a missing check shows only for particular offsets, lengths or key bytes",
 ["engine/src/snapshot/logic.rs", "engine/src/snapshot/compression.rs", "client/src/types/snapshot.rs", "client/src/security/keyprovider.rs"],
 [("authenticated encryption of the snapshot", "engine/src/snapshot/logic.rs")], (), ["Stronghold::load_snapshot", "load_client_from_snapshot"])

prop("C06", "Concurrent use of one client is linearizable and never deadlocks",
 "Any number of threads may use clones of one client at the same time: every vault, store and procedure call returns, and the results and the final content are those of some sequential order of the calls. In particular no acknowledged write or revocation is lost or undone by a concurrent call, no call sees a half-applied one, and no call panics or leaves the client unusable. This holds in every interleaving.",
 ["schedules"], "every interleaving up to a preemption bound of 2-3 threads with 1-2 calls each, over all pairs of operation kinds on colliding locations",
 "the tests spawn threads and let the OS pick a handful of schedules on mostly disjoint locations",
 ["client/src/types/client.rs", "client/src/types/vault.rs", "client/src/types/store.rs", "engine/src/vault/view.rs"],
 [("RwLock around key store, database and store", "client/src/types/client.rs")], (), ["call results", "final content"])

prop("C07", "Concurrent use of one Stronghold instance is safe and complete",
 "Threads that share a Stronghold instance may create, load, fetch, write, unload, purge and commit clients and clear the instance concurrently with each other and with client operations: no interleaving deadlocks or panics, and the results and the outcome are, for every client, those of some sequential order of the calls. A commit that returned success contains every client write that had completed before the commit began. A cleared or purged client does not come back through a concurrent call that began before it.",
 ["schedules"], "every interleaving up to a preemption bound of 2-3 threads over all pairs of Stronghold-level operations and client writes",
 "tests exercise these calls from one thread",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs", "client/src/types/client.rs"],
 [("lock order snapshot, clients, key store, database, store", "client/src/types/stronghold.rs")], (), ["call results", "reloaded snapshot"])

prop("C08", "A failed procedure chain leaves no derived secret behind",
 "When a chain of procedures fails at any step, the call returns an error and none of the secrets the chain's completed steps produced is usable afterwards. Locations that no completed step of the chain wrote keep exactly the content they had, including the target of the failing step. A chain that succeeds has the effect of running its steps one by one and returns one output per step in order.",
 ["programs", "inputs"], "every chain of length up to 3-4 over one instance of every procedure kind, with failing steps in every position, over fresh and occupied target locations",
 "tests run a few successful chains and one failing chain",
 ["client/src/types/client.rs", "client/src/procedures/primitives.rs", "client/src/procedures/types.rs"],
 [("rollback log of target locations", "client/src/types/client.rs execute_procedure_chained"), ("Procedure output classification", "client/src/procedures/primitives.rs")], (), ["record_exists", "procedure results"])

prop("C09", "Synchronising vaults moves exactly the selected records",
 "Synchronising one client into another copies exactly the selected records (all vaults, or the selected vaults and records, under the requested vault and record mapping) whose presence the chosen merge policy asks for, with the exact secret value, and changes nothing else in the target and nothing at all in the source. Keep-old never changes a record the target already has, and replace makes every selected record equal to the source's. It works for every state of both sides, including missing, revoked and garbage-collected records.",
 ["histories", "configurations"], "every pair of small source and target states (absent, live, revoked per location) times every selection, mapping and merge policy",
 "tests cover a few combinations, always with live records on both sides",
 ["client/src/types/client.rs", "client/src/sync.rs", "engine/src/vault/view.rs"],
 [("hierarchy diff, export and import of records", "client/src/sync.rs")], (), ["both clients' records after the call"])

prop("C10", "Snapshots exchanged between instances merge exactly what was asked",
 "A snapshot state exported for another instance (through its public key, serialised, or as a state object) and imported there yields, under every selection, mapping and merge policy, exactly the clients, vaults and records the policy asks for, with the exact secrets, and changes nothing else in the importing snapshot. Loading the merged clients gives the merged content. An exported state for which the importer does not hold the matching key or which was altered is refused without changing the importer.",
 ["histories", "configurations", "inputs"], "every pair of small snapshot states over two clients times every selection, mapping and policy; every single-byte change of an exported state",
 "tests perform two or three fixed merges",
 ["client/src/sync.rs", "client/src/types/snapshot.rs", "client/src/types/stronghold.rs"],
 [("SyncSnapshots", "client/src/sync.rs"), ("export_to_serialized_state/import_from_serialized_state", "client/src/types/snapshot.rs")], (), ["clients loaded from the merged snapshot"])

prop("C11", "The store returns the live value of a key and forgets it on time",
 "For every sequence of insertions (with or without a lifetime), lookups, existence checks, deletions and passing time, a key of a client's store reads as the last value inserted for it while that value's lifetime has not passed and as absent afterwards. Insert and delete return the previous live value, and expiry of one key never affects another. No lifetime and no movement of the system clock makes a call panic, and an unexpired entry survives a commit and reload with its expiry time unchanged.",
 ["histories", "inputs"], "every operation history up to a depth over two keys, values, lifetimes and clock steps under a controlled clock",
 "tests sleep for real time and check one or two expirations",
 ["client/src/types/store.rs", "engine/src/store/cache.rs", "engine/src/store/storage.rs"],
 [("expiry check on access", "engine/src/store/cache.rs")], [("expires_at", "absolute expiry time of an entry", "engine/src/store/storage.rs")], ["Store and Cache API"])

prop("C12", "Compression is lossless and decompression is total",
 "Decompressing the compressed form of any byte string gives back that byte string. Decompressing any other byte string returns a result or an error, and never panics, aborts, hangs or reads or writes out of bounds.",
 ["inputs"], "every byte string over small alphabets up to a length, structured runs around every length-encoding boundary, and every short byte string plus every single-byte mutation as decoder input",
 "tests compress a few fixed or random inputs; boundary errors of token and length encoding need specific lengths and repeats",
 ["engine/src/snapshot/compression.rs"], [("LZ4 encoder and decoder", "engine/src/snapshot/compression.rs")], (), ["engine::snapshot compress/decompress"])

prop("C13", "URL-safe base64 identifiers round-trip and bad text is refused",
 "Decoding the encoding of any byte string gives back exactly that byte string, and encoded text uses only the URL-safe alphabet with padding to a multiple of four. Text with a character outside the alphabet, of a wrong length or with misplaced padding is refused with an error, decoding never panics, and accepted text decodes to exactly the bits its characters spell.",
 ["inputs"], "every byte string of length 0-3 (4 in the thorough tier over an alphabet), and every text up to a length over an alphabet of valid, padding and invalid characters",
 "tests check a fixed table and random strings",
 ["engine/src/vault/base64.rs"], [("Base64 encode/decode", "engine/src/vault/base64.rs")], (), ["Base64Encodable/Base64Decodable"])

prop("C14", "Guarded memory is readable only while borrowed and always restored",
 "Between borrows the memory of a guarded secret can be neither read nor written, while borrowed it can be read, written only through a mutable borrow, and after the last borrow ends, normally, by panic or on any thread, it is inaccessible again. This holds for every sequence and every interleaving of borrows (up to 255 at a time), nested borrows, clones, comparisons and drops by any number of threads, none of which faults or aborts for legitimate use, and the content read is exactly the content stored. Two guarded secrets compare equal exactly if their contents are equal, whatever their lengths. Releasing a secret overwrites its bytes before the memory is returned.",
 ["histories", "schedules"], "every borrow/clone/compare/drop history up to a depth on one thread, and every interleaving up to a preemption bound for 2-3 threads",
 "whether a page is accessible between steps, and races between protection changes, are invisible to ordinary assertions and need specific schedules",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/runtime/src/types.rs"],
 [("reference count with mprotect on first and last borrow", "engine/runtime/src/boxed.rs")], [("refs/prot", "number of borrows and current protection", "engine/runtime/src/boxed.rs")], ["write(2) probes of the pages", "content through borrows"])

prop("C15", "Non-contiguous memory always reconstructs the stored key",
 "Whatever storage arrangement is chosen, the key read from non-contiguous memory is exactly the key stored, after any number of reads, refreshes, clones, updates and concurrent accesses, and both reading and refreshing replace both shards while the key stays. The shards stay in the arrangement chosen (guarded memory, files, separate mappings or blocks), lie at least a page apart in memory, no shard shows the key, and released shards are overwritten and given back. Copies are independent: refreshing or dropping one never affects another. A key of another size than 32 bytes, a use after zeroing, and a distance that cannot be met are refused with an error.",
 ["histories", "schedules"], "every history of read, refresh, clone and drop up to a depth for every arrangement, and every interleaving up to a preemption bound of two readers",
 "tests read once or twice on one thread",
 ["engine/runtime/src/memories/noncontiguous_memory.rs"], [("two-share secret splitting with refresh", "engine/runtime/src/memories/noncontiguous_memory.rs")], (), ["unlock"])

prop("C16", "File-backed secrets are private, masked at rest and cleaned up",
 "A secret held in file memory reads back exactly, for every size, also after it was cloned, serialised or updated and when two threads use the same secret at the same time, and its file is readable and writable by nobody while the secret is not being accessed. The plain secret never appears in the file, and the file is gone after the memory is zeroed or dropped, including when a panic unwinds. A failing file-system call surfaces as an error (of clone: a panic, as it has no other way), never as other bytes, and leaves the file locked or removed and every other secret intact, unless the failing call is the very one that would have locked or removed it.",
 ["histories", "fault_sequences", "inputs", "schedules"], "every alloc/unlock/clone/update/serialise/zeroize/drop history up to a depth, every payload size of a list, an injected failure of every file-system call, every schedule of the file calls of two threads up to a number of switches",
 "tests look at one file once and inject no failures",
 ["engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/utils.rs"], [("file permissions and masking", "engine/runtime/src/memories/file_memory.rs")], (), ["file content and mode"])

prop("C17", "Software transactions are atomic, isolated and lose no update",
 "Transactions that commit appear to run one after another, each at one moment between its beginning and its end: no interleaving loses an update, exposes a half-finished transaction's writes (not even to an attempt that is given up later), or lets a transaction commit on values from two different points of that order. A transaction reads what it stored itself, of the type it stored. An attempt that fails, returns an error or panics leaves every variable unchanged, and one that returns an error or conflicts is tried again until it commits. Transactions do not block each other for ever, whatever the order in which they lock their variables, and each has an id of its own. A variable can be taken out exactly if there is no other copy of it and the type is right.",
 ["schedules", "histories"], "every interleaving up to 2-5 preemptions of two or three threads with transactions of 19 kinds over two or three shared variables, with every order of locks; every history up to a depth of one thread with all types of values",
 "the tests run thousands of random interleavings on the OS scheduler with no control over preemption points",
 ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"], [("version clock, version checks, locks on the used variables", "stm/src/stm")], (), ["values of shared variables", "transaction results"])

prop("C18", "Read-log-update variables are plain variables while no two threads share one",
 "As long as no two threads use the same variable at the same time, at least one of them writing it, read-log-update variables behave like plain variables: every read gives what was written last (by a write guard that was dropped before), every write of a guard that was dropped takes effect, whatever other guards its section opens or holds, in whatever order they are dropped, and whatever other variables and threads do. A section's function runs until it gives no error, once if the strategy is to abort, and as often as the breaker allows with a breaker. When several threads do use the same variable at once, every read still gives a value that was written, and no section blocks for ever, panics or gives a value that nobody wrote.",
 ["histories", "schedules"], "every history up to a depth of one thread with guards held in every order, every strategy; every interleaving up to 2-3 preemptions of two or three threads",
 "all its tests are switched off (ignored) or commented out",
 ["stm/src/rlu/rlu.rs", "stm/src/rlu/guard", "stm/src/rlu/rlog.rs", "stm/src/rlu/breaker.rs"], [("write guards, write log and write-back, retry strategies", "stm/src/rlu")], (), ["values read", "values of variables"])

prop("C19", "Secrets never leave a vault in the clear",
 "The bytes of a secret written to or generated in a vault never occur in a snapshot file, in an exported state, in the debug or display text of any public type, or in an error message. The same holds for the snapshot key, and for mnemonics, passphrases and passwords given to a procedure. Procedure outputs contain only what the procedure is documented to return.",
 ["inputs", "histories"], "every public type with debug output and every procedure kind, with marked secrets, over every state of the lifecycle",
 "tests do not look at the debug text and snapshot bytes for all types and states",
 ["client/src/types", "engine/src/vault", "engine/runtime/src/memories", "derive"], [("GuardDebug derive, encryption of records and of the snapshot", "derive, engine/src/vault")], (), ["formatted text", "snapshot file bytes"])

prop("C20", "Every procedure computes its documented function or fails cleanly",
 "For every procedure, every parameter choice and every length of stored secret and of argument, the output (and the secret stored at the target) is exactly what the documented algorithm gives for the secret stored at the source, or the call returns an error. No argument or stored secret makes a procedure panic, hang or leave the client unusable, and a failing procedure creates no usable record. Encrypting then decrypting, wrapping then unwrapping, and signing then verifying agree.",
 ["inputs"], "every procedure kind, every enumeration parameter, every secret length 0-65 and boundary argument lengths, against independent calls of the primitives",
 "tests use one well-formed secret per procedure",
 ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs", "client/src/types/client.rs"],
 [("procedure execution inside a vault guard", "client/src/procedures/primitives.rs")], (), ["procedure output", "CompareSecret"])

prop("C21", "Failed instance-level calls change nothing",
 "A call on a Stronghold instance that returns an error (missing file, missing client, already loaded client, wrong key, wrong key location, unwritable path, failed commit) leaves the loaded clients, their secrets and stores, the snapshot state in memory and the file on disk as they were. The instance stays usable afterwards: the same call with the cause removed succeeds. Successful calls have exactly their documented effect.",
 ["histories", "fault_sequences"], "every history up to a depth of instance-level calls including each failing variant, compared step by step with a reference model of instance, clients and files",
 "tests check the returned error, not the state it left",
 ["client/src/types/stronghold.rs", "client/src/types/snapshot.rs"], [("check before mutate in instance operations", "client/src/types/stronghold.rs")], (), ["instance API", "reload of files"])

prop("C22", "The native bindings keep the library's guarantees across the C interface",
 "Every exported C function called with valid arguments (terminated UTF-8 strings; handles and pointers that were handed out and not yet given back) has the effect of the corresponding library calls, in memory and in the snapshot file, and the returned pointer points to the bytes of the result (32 of a public key, 64 of a signature). Every failing call returns a null pointer or false and makes the text of its error available once; no valid call terminates the process. No valid sequence of calls reads or releases memory it must not, what was handed out stays intact until it is given back, and giving everything back releases everything. The log shows no secret at any level.",
 ["histories", "inputs", "fault_sequences"], "every history of exported calls up to a depth over two handles, three files and two keys; boundary names, keys, lengths and indices; a failing file call at every position",
 "the binding crate has no tests",
 ["bindings/native/src"], [("pointer and error hand-over", "bindings/native/src")], (), ["C return values and pointed-to bytes", "the snapshot file"])

prop("C23", "Encrypted records open only with their own key, vault and identity",
 "At the engine level a record can be read only with the key of its vault; reading, writing or revoking with any other key returns an error and changes nothing, listing with it shows nothing and collecting with it has no effect, and a record's ciphertext moved to another record identifier or another vault does not open. Under every history of engine calls the listing, containment and content queries agree with the last successful writes and revocations.",
 ["histories", "inputs"], "every history up to a depth over two vaults, two keys and three records with right and wrong keys, and every swap of stored ciphertexts",
 "tests use the right key and a single fixed vault",
 ["engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs", "engine/src/vault/types/transactions.rs"],
 [("authenticated boxes bound to the record id", "engine/src/vault/crypto_box.rs, engine/src/vault/view.rs")], (), ["DbView API"])

prop("C24", "Key providers give exactly the key of their passphrase",
 "Building a key provider from the same input and method always gives the same 32-byte key, and inputs that differ in any byte give different keys, which open exactly the snapshots committed with them. Input of an unsuitable size is refused with an error and never shortened, padded or accepted silently except by the method documented to do so.",
 ["inputs"], "every construction method times every passphrase length 0-65 and every single-byte difference, and lengths round the powers of two up to a megabyte",
 "tests use one passphrase",
 ["client/src/security/keyprovider.rs"], [("construction from hash, truncation and Argon2", "client/src/security/keyprovider.rs")], (), ["KeyProvider, commit and load"])

prop("C25", "Keys, nonces and generated secrets are always fresh and fully random",
 "Every key the library makes for a vault, every nonce and blob id of a record, the ephemeral key of every snapshot and export, and every secret or mnemonic that a procedure generates has its full measure of the operating system's random bytes in it (32 for keys and secrets, 24 for nonces and ids, its length if that is shorter) and occurs only once, nor do two of them share a part: not when the same value is written again, not after a record is revoked and collected or the instance is loaded from its snapshot, not in another vault or client, and not when nothing has changed between two commits (a record that is not written again keeps its form; a synchronised copy keeps the secret and the blob id, under other nonces). If the random source fails at any call, the operation that needs it fails, and it neither stores nor returns anything; what was stored before stays as it was.",
 ["inputs", "histories", "fault_sequences"], "every byte (in part every bit) of every call of the random source changed, for every kind of operation that uses it; every history up to a depth of 4; the random source failing at, and from, every call of every operation",
 "tests see random values, and never a random source that fails; a key with half its bits, a repeated nonce or an ignored failure work like proper ones",
 ["client/src/internal/provider.rs", "client/src/security/keystore.rs", "client/src/procedures/primitives.rs", "engine/src/vault/crypto_box.rs", "engine/src/vault/view.rs", "engine/src/vault/types/utils.rs", "engine/src/snapshot/logic.rs"],
 [("random keys, nonces, ids and seeds", "client/src/internal/provider.rs, engine/src/vault/crypto_box.rs, client/src/procedures/primitives.rs")], (), ["records, keys and headers decoded from committed snapshots", "results of procedures"])

for p in P:
    assert len(p["title"]) <= 80, p["id"]
    sys.stdout.write(json.dumps(p) + "\n")
