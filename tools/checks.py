NOTES = "Every check runs ./check <id> <tier>, which rebuilds the harness against /repo's working tree."
CHECKS = {
 "C01": ("exhaustive operation-history and abstract-state-graph enumeration on the real client against a reference model", "model_checking",
   "Every history within the bounds is executed on the real client and compared step by step with the model; trusts the CompareSecret procedure of the build as observer."),
 "C02": ("exhaustive enumeration of pairs of locations, keys and client paths from a boundary alphabet on the real client, plus a reload in a fresh process", "model_checking",
   "Every ordered pair of the alphabet is executed; identity outside the alphabet rests on the collision resistance of BLAKE2b and HMAC."),
 "C03": ("exhaustive enumeration of instance-level histories on the real Stronghold with reload into a fresh instance, against a reference model", "model_checking",
   "Every history within the bounds is executed and compared with the model, in memory, in the snapshot and after reload."),
 "C05": ("exhaustive enumeration of damaged images and wrong keys against the real loader", "model_checking",
   "Every image of the stated damage families is loaded; the session state is compared afterwards."),
 "C12": ("exhaustive enumeration of inputs up to a length over small alphabets plus all single edits of structured streams, each run in a crash-tolerant worker", "model_checking",
   "Small-scope exhaustive; long inputs are covered by structured families around the format's length boundaries."),
 "C13": ("exhaustive enumeration of byte strings and of encoded texts up to a length", "model_checking",
   "Small-scope exhaustive; encoding works in groups of three bytes and four characters, which are covered completely."),
 "C21": ("exhaustive enumeration of instance-level histories with failing calls on the real Stronghold, against a reference model", "model_checking",
   "Every history within the bounds is executed; after each failing call the whole visible state is compared with the model."),
 "C24": ("exhaustive enumeration of provider constructions over length and byte boundaries, cross-opened against committed snapshots", "model_checking",
   "All 256 byte values at every position and all lengths up to a bound; the hash functions themselves are trusted."),
 "C09": ("exhaustive enumeration of initial states, earlier synchronisations, later changes and configurations on real clients against a reference model, decoded from the committed snapshot", "model_checking",
   "Every combination within the bounds is executed; record contents are decoded independently of the client through the committed snapshot."),
 "C10": ("exhaustive enumeration of snapshot pairs, configurations and transports on the real code against a reference model, and of damaged exports", "model_checking",
   "Every combination within the bounds is executed, except those where two source records compete for one place (no winner is defined)."),
 "C20": ("exhaustive enumeration of every procedure over boundary arguments, key and buffer lengths, and target/source placements on a real client, against independent implementations of the algorithms", "model_checking",
   "Every combination of the alphabet is executed; arguments outside it rest on the structure of the algorithms (block boundaries are covered)."),
 "C08": ("exhaustive enumeration of procedure chains over initial states of the locations on a real client, with a twin client that runs the steps one by one", "model_checking",
   "Every chain over the alphabet up to the stated length is executed; every kind of procedure that produces a secret occurs before a failing step."),
 "C11": ("exhaustive enumeration of operation histories of the cache and of a client's store under a system clock the check controls, against a reference model", "model_checking",
   "The clock is the process's own clock_gettime; every state is read at the times around every expiry."),
 "C23": ("explicit-state exploration of the engine's complete abstract vault state graph with every edge executed on the real code, and exhaustive enumeration of records assembled from parts of others, bit flips and truncations", "model_checking",
   "Every edge of the state graph within the dimensions is executed; strength of the cipher itself is trusted."),
 "C19": ("exhaustive enumeration of ways in, fates and ways out of secrets on the real code, with every byte and text that leaves searched for every secret", "model_checking",
   "Complete over the procedure kinds, patterns, fates and types listed; a secret is recognised by any eight of its bytes, in binary or in the usual text encodings."),
 "C04": ("exhaustive enumeration of crash points, lost and torn writes and lost directory updates over the recorded file-system calls of real commits, and of a failing call at every position, each resulting disk loaded with the real code", "model_checking",
   "Every crash state of the stated crash model and every single fault of the stated kinds for every history within the bounds; real file systems that lose less are covered, ones that break rename atomicity are not."),
 "C16": ("exhaustive enumeration of histories, sizes, single failing file calls and two-thread schedules of the file calls of real file memories under a recording, fault-injecting file layer", "model_checking",
   "Every history, size, fault position and schedule within the bounds is executed; permission bits are enforced by the recording layer, as the check runs as root."),
 "C22": ("exhaustive enumeration of call histories, argument boundaries and single failing file calls through the exported C functions, against a reference model and the library, under an allocator that faults on every wrong access", "model_checking",
   "Every history and fault within the bounds is executed on the real bindings; every allocation has its own guarded pages and no address is used twice."),
 "C06": ("stateless exploration of every interleaving, up to a preemption bound, of the real client code under a controlled scheduler (a copy whose std paths lead to scheduled locks), each outcome compared with the sequential orders executed on the same code", "model_checking",
   "Every lock, atomic and file call is a schedule point; sequentially consistent memory; the copy differs from /repo only in the std paths and is rebuilt on every run."),
 "C07": ("stateless exploration of every interleaving, up to a preemption bound, of the real Stronghold, snapshot and client code under a controlled scheduler, each outcome (results, live clients, snapshot in memory, files reloaded) compared with the sequential orders executed on the same code", "model_checking",
   "Every lock, atomic and file call is a schedule point; sequentially consistent memory; the copy differs from /repo only in the std paths and is rebuilt on every run."),
 "C14": ("explicit-state exploration of the guarded buffer's state graph and of every borrow history up to a depth on the real code with every page probed after each step, and stateless exploration of every interleaving of borrows, clones, comparisons and drops up to a preemption bound under a controlled scheduler", "model_checking",
   "Every lock, atomic and protection change is a schedule point; the pages are probed through the kernel, so a wrong protection is seen without a fault."),
 "C15": ("exhaustive enumeration of operation histories per storage arrangement with every shard located and read after each step, and stateless exploration of every interleaving of two or three threads up to a preemption bound under a controlled scheduler, compared with the sequential orders", "model_checking",
   "Every history and schedule within the bounds is executed on the real code; the random numbers the shards are made of come from a seeded stream."),
 "C17": ("stateless exploration of every interleaving of two or three threads with small transactions up to a preemption bound under a controlled scheduler, with the order of locks as a further choice, compared with the sequential orders; exhaustive histories of one thread against a model", "model_checking",
   "Every schedule and history within the bounds is executed on the real code; a wait of 1000 tries is one wait that ends when a lock is released or gives up; a hash table's order is chosen by the check."),
 "C18": ("exhaustive enumeration of section histories of one thread against a model, and stateless exploration of every interleaving of two or three threads up to a preemption bound under a controlled scheduler", "model_checking",
   "Every history and schedule within the bounds is executed on the real code. What the repository documents as broken (several threads writing or reading and writing the same variable) is only checked for the weaker claims."),
 "C25": ("exhaustive enumeration of single-byte changes and single or lasting failures of every call of the random source for every kind of operation, and of operation histories, with every key, nonce, id and secret decoded and compared with all others", "model_checking",
   "The process's getrandom is the check's own stream; the kernel's random numbers themselves are trusted."),
}
NA = {}
