prop("P01", "Vault secrets never leave the client in the clear",
 "No public operation returns, logs or puts into an error message the plaintext of a record stored in a vault, nor the plaintext of a secret that a procedure generates or derives into a vault; procedures only reveal what their cryptographic operation computes from it (signature, public key, MAC, ciphertext, decrypted message, boolean comparison). The one documented exception is the mnemonic returned by the BIP-39 generation procedure.",
 ["inputs", "programs"], "every procedure, every public client/vault/store/snapshot operation, every input and error path",
 "Tests call each procedure with a few inputs and look at the output's value; none can show that no path, error path or log statement carries secret bytes out.",
 ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs", "client/src/procedures/clientrunner.rs", "client/src/types/vault.rs", "engine/src/vault/view.rs"],
 [("procedures see secrets only inside a guard closure", "client/src/procedures/clientrunner.rs"), ("products split into secret and output", "client/src/procedures/types.rs"), ("guarded buffers", "engine/src/vault/view.rs")],
 observe=["return values of procedures", "error values", "log records"])

prop("P02", "Debug and display output never contains secret bytes",
 "Formatting any value that holds key material, passphrases, guarded memory or procedure secrets with Debug or Display prints no byte of that secret, whatever its content or state. This also holds for aggregates (clients, snapshots, procedures, providers) that contain such values.",
 ["inputs", "programs"], "every Debug/Display implementation reachable from a secret-holding type, hand-written or derived",
 "One existing test formats one buffer; any later field, derive or format string can leak and no test enumerates the implementations.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/src/vault/crypto_box.rs", "client/src/security/keyprovider.rs", "derive/src/lib.rs"],
 [("hand-written Debug of guarded memories", "engine/runtime/src"), ("GuardDebug derive", "derive/src/lib.rs"), ("Debug of keys", "engine/src/vault/crypto_box.rs")])

prop("P03", "Secret memory is wiped before it is released",
 "When a value holding guarded memory (buffers, RAM, file and fragment memories, split memories, keys) goes out of scope or is explicitly zeroized, all of its secret bytes are overwritten before the memory or file is given back, on every path. After an explicit zeroize the old content cannot be read through the value any more.",
 ["inputs", "histories", "fault_sequences"], "every drop and zeroize path of every secret-holding type, for all sizes",
 "Tests inspect one freed buffer of one size; they cannot show that each drop path of each type wipes the whole allocation before freeing it.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/runtime/src/memories/ram_memory.rs", "engine/runtime/src/memories/file_memory.rs", "engine/runtime/src/memories/frag.rs", "engine/runtime/src/memories/noncontiguous_memory.rs", "engine/src/vault/crypto_box.rs"],
 [("Zeroize and Drop implementations", "engine/runtime/src"), ("sodium_free / memzero", "engine/runtime/src/boxed.rs")])

prop("P04", "Guarded memory is only accessible while it is borrowed",
 "A guarded allocation is created with guard pages and locked against swapping, is inaccessible whenever no borrow is alive, readable only while a shared borrow is alive and writable only while an exclusive one is. Every borrow gives its access right back when it ends, on every path, and a failing change of access rights is never ignored.",
 ["histories", "fault_sequences", "inputs"], "every sequence of borrow, nested borrow, release, clone and comparison on guarded memory",
 "Tests borrow a handful of buffers; a missed re-protection on one path leaves secrets readable without changing any test result.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs"],
 [("retain/release reference counting with mprotect", "engine/runtime/src/boxed.rs"), ("Ref/RefMut guards locking on drop", "engine/runtime/src/memories/buffer.rs")],
 state=[("protection state and borrow count of an allocation", "which access is allowed and how many borrows are alive", "engine/runtime/src/boxed.rs")])

prop("P05", "Split-memory keys reconstruct exactly and no single share reveals them",
 "A key kept in split memory is stored as two shares such that combining them always yields the original key, before and after any number of refreshes and for every storage configuration. Each share alone is masked with fresh randomness on creation and on every refresh, so neither share ever equals or determines the key; reading the key also refreshes the shares.",
 ["histories", "configurations", "inputs"], "all key values, all random draws, all storage configurations and any number of refreshes",
 "Tests compare a few random keys; equality on samples cannot prove the masking identity, nor that fresh randomness reaches both shares on every refresh.",
 ["engine/runtime/src/memories/noncontiguous_memory.rs", "engine/runtime/src/utils.rs"],
 [("shares r and H(r) xor key", "engine/runtime/src/memories/noncontiguous_memory.rs:alloc"), ("refresh re-masks both shares", "engine/runtime/src/memories/noncontiguous_memory.rs:refresh")])

prop("P06", "File-backed secret memory is masked on disk and locked after every access",
 "Secret bytes kept in file-backed memory reach the disk only masked with fresh random noise, the file is made inaccessible again after it is written and after it is read (including when reading fails), and zeroizing or dropping the memory clears and removes the file.",
 ["histories", "fault_sequences"], "every create, read, clone and drop path, including failing reads",
 "One test checks permissions after a successful write; error paths and the content written are not observed.",
 ["engine/runtime/src/memories/file_memory.rs"],
 [("xor with noise before writing", "engine/runtime/src/memories/file_memory.rs"), ("permission bits reset after access", "engine/runtime/src/memories/file_memory.rs")])

prop("P07", "A failing vault operation never loses the vault's key",
 "While an operation on a vault runs, its key is temporarily taken out of the client's key store; whichever way the operation ends (success, engine error, procedure error, missing record) the same key is back in the store under the same vault, so the vault's records stay accessible.",
 ["inputs", "fault_sequences", "histories"], "every operation that takes a vault key, every success and error exit",
 "Tests exercise mostly successful calls; a key lost on one rare error exit silently makes all records of the vault unreadable.",
 ["client/src/procedures/clientrunner.rs", "client/src/security/keystore.rs"],
 [("take and re-insert of the vault key around each operation", "client/src/procedures/clientrunner.rs"), ("key store map", "client/src/security/keystore.rs")])

prop("P08", "Public operations cannot deadlock against each other",
 "Any number of threads may call the public operations of stronghold, client, vault and store concurrently: the locks they take are always acquired in one global order and no operation re-acquires, while holding it, a lock it already holds. So no schedule of public calls can block forever.",
 ["schedules", "programs"], "all schedules of all public operations over shared strongholds and clients",
 "A stress test samples a few schedules of two procedures; lock inversions need a specific interleaving of two different operations.",
 ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/procedures/clientrunner.rs", "client/src/types/store.rs", "client/src/types/vault.rs"],
 [("lock order snapshot, clients, key store, db, store cache, key location", "client/src/types/stronghold.rs"), ("lock order key store before db", "client/src/procedures/clientrunner.rs")])

prop("P09", "A vault is only touched with its own key",
 "Reading, writing, exporting into or revoking in a vault with a key other than the one the vault was created with fails with an error, enumerating it yields an error or nothing, and garbage collection leaves it alone; none of them changes the vault or yields record content. This is decided before any record is added, replaced, revoked or decrypted.",
 ["inputs", "histories"], "every vault operation and every pair of keys and vaults",
 "A few tests try a wrong key with one or two operations; each new or modified operation needs the same check on every path.",
 ["engine/src/vault/view.rs"],
 [("key check at the start of each vault operation", "engine/src/vault/view.rs"), ("record ids bound as associated data", "engine/src/vault/view.rs")])

prop("P10", "Revoked records are unreadable; garbage collection removes only them",
 "Once a record is revoked, no later read, procedure or listing yields its content, while other records are unaffected. Garbage collection removes exactly the revoked records and never a live one, and writing to a revoked location is refused instead of reviving the revoked record.",
 ["histories", "inputs"], "all histories of writes, revocations, reads and collections over any set of records",
 "Tests run short fixed histories; the guarantee quantifies over all interleavings of writes, revocations and collections.",
 ["engine/src/vault/view.rs", "engine/src/vault/types/transactions.rs"],
 [("revocation marker on the record", "engine/src/vault/view.rs"), ("transaction lookup refuses revoked records", "engine/src/vault/view.rs"), ("collection filters on the marker", "engine/src/vault/view.rs")])

prop("P11", "A failed procedure chain leaves none of its products behind",
 "When a chain of procedures fails at any step, every record that an earlier step of that chain wrote is revoked before the error is returned, the failing step's error is the one reported, and no later step runs; no record that the chain did not write is revoked. Each procedure that writes a record reports that record's location for this purpose.",
 ["inputs", "fault_sequences", "programs"], "every chain of procedures and every position of the failing step",
 "Tests fail one chain built from two procedure kinds; there are over twenty kinds and any chain length.",
 ["client/src/types/client.rs", "client/src/procedures/primitives.rs", "client/src/procedures/types.rs"],
 [("log of output locations and rollback loop", "client/src/types/client.rs"), ("per-procedure output location", "client/src/procedures/primitives.rs")])

prop("P12", "Client synchronisation copies exactly what its configuration selects",
 "Synchronising one client from another copies only records of selected vaults and, where given, selected records; puts them into the mapped target vault; keeps an existing target record under the keep-old policy and replaces it under the replace policy. It never alters the source or unrelated target records, and failures are reported.",
 ["configurations", "inputs", "histories"], "all selections, mappings and merge policies, existing and missing target vaults",
 "Tests cover a few configurations, none combining record selection with a missing target vault or a mapping with an existing one.",
 ["client/src/sync.rs", "client/src/types/client.rs"],
 [("hierarchy, diff, export and import steps", "client/src/sync.rs"), ("sync of two clients", "client/src/types/client.rs")])

prop("P13", "Snapshot synchronisation honours its mapping and selection and reports failure",
 "Merging another snapshot's state copies only the selected clients, vaults and records into the mapped clients and vaults, re-encrypted under the target vault's own key. Any failure while merging is reported to the caller instead of being dropped, and untouched clients keep their state.",
 ["configurations", "inputs", "fault_sequences"], "all selections and mappings of clients and vaults, and every failing step of an import",
 "The existing test merges without mapping vaults and never makes an import fail.",
 ["client/src/sync.rs", "client/src/types/snapshot.rs"],
 [("diff against the mapped client", "client/src/sync.rs"), ("import into mapped client and vault", "client/src/sync.rs"), ("merge", "client/src/types/snapshot.rs")])

prop("P14", "Writing a snapshot replaces the old file atomically",
 "Saving a snapshot never exposes a partial file at the target path: the complete content is written to a fresh temporary file in the same place, flushed to disk, and only then renamed over the target. If any step fails or the process dies in between, the previous snapshot file is still intact and an error is reported.",
 ["crash_points", "fault_sequences"], "every crash point and every failing file operation during a save",
 "Tests only save successfully; no test crashes or fails between the steps.",
 ["engine/src/snapshot/logic.rs"],
 [("temporary file, sync, rename", "engine/src/snapshot/logic.rs:write_to")])

prop("P15", "Snapshot content is authenticated before it is used",
 "Reading a snapshot yields content only if the length, the magic bytes, the version and the authentication tag over the content all verify; a wrong key, a truncated, altered or foreign file gives an error and no content. Nothing read from the file is decompressed or parsed as state before authentication succeeded.",
 ["inputs", "fault_sequences"], "every byte string offered as snapshot file and every key",
 "Tests corrupt a few files at random; they cannot show that every path to the decompressor and the parser passes the checks.",
 ["engine/src/snapshot/logic.rs", "client/src/types/snapshot.rs", "client/src/internal/provider.rs"],
 [("header checks", "engine/src/snapshot/logic.rs"), ("authenticated decryption before decompression", "engine/src/snapshot/logic.rs")])

prop("P16", "Every encryption uses fresh randomness",
 "Each encryption of a record, key, client state or snapshot uses a nonce, ephemeral key or data key that is newly drawn from the system's secure random generator for that one encryption (or derived from one that is), never a constant, a reused value or one taken from the input (the AEAD procedure is exempt: its caller supplies the nonce). Newly generated vault keys, record content ids and salts are likewise fresh.",
 ["histories", "inputs"], "every encryption call over the lifetime of the program",
 "Repeated nonces produce no failing test; a test cannot observe randomness of values it never sees.",
 ["client/src/internal/provider.rs", "engine/src/snapshot/logic.rs", "engine/src/vault/view.rs", "engine/src/vault/crypto_box.rs", "client/src/types/snapshot.rs", "client/src/procedures/primitives.rs"],
 [("nonce drawn inside each seal", "client/src/internal/provider.rs"), ("ephemeral key per snapshot write", "engine/src/snapshot/logic.rs"), ("random ids and keys", "engine/src/vault")])

prop("P17", "Expired store entries are never returned",
 "A store entry inserted with a lifetime is not returned by any lookup, containment test or removal once that lifetime has elapsed, and entries without a lifetime never expire. The lifetime counts from the moment of insertion.",
 ["histories", "schedules"], "all histories of inserts, lookups and removals and all elapsed times",
 "One test sleeps for one duration and does one lookup; the other operations and boundary times are not covered.",
 ["engine/src/store/storage/cache.rs", "engine/src/store/storage.rs", "client/src/types/store.rs"],
 [("expiry check on every access", "engine/src/store/storage.rs"), ("expiry time computed at insertion", "engine/src/store/storage/cache.rs")])

prop("P18", "Commit persists, and load restores, every component of every client",
 "Committing writes the keys, vault records and store of every client that is loaded, plus all client states already in the snapshot, and loading a client restores all three under the same client. No component and no client is skipped, and an error on any of them fails the operation.",
 ["histories", "inputs", "configurations"], "any number of clients with any content, every commit and load variant",
 "Tests commit one or two clients and mostly look at one record.",
 ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs"],
 [("loop over loaded clients", "client/src/types/stronghold.rs"), ("client state triple", "client/src/types/snapshot.rs"), ("restore", "client/src/types/client.rs")])

prop("P19", "Clearing wipes all in-memory state",
 "After clearing a stronghold, no client, vault key, vault record, store entry, snapshot state or snapshot-key location is left in memory, including inside client handles obtained earlier. Purging a client removes it from the loaded clients and from the snapshot, so the next commit no longer contains it.",
 ["histories"], "every state of a stronghold at the time of the call",
 "Tests look at one or two of the components after a clear.",
 ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs", "client/src/security/keystore.rs"],
 [("clear of each component", "client/src/types/stronghold.rs"), ("purge", "client/src/types/snapshot.rs")])

prop("P20", "Malformed untrusted bytes give an error, never a panic",
 "Decoding bytes that come from outside (snapshot files, compressed blocks, base64 text, ciphertexts, serialized records and keys) never aborts the process: every length, offset and index taken from the input is checked before it is used, and malformed input is answered with an error.",
 ["inputs"], "every byte string given to every decoder",
 "Tests and unused fuzz targets sample inputs; the panic-free claim is about all byte strings.",
 ["engine/src/snapshot/logic.rs", "engine/src/snapshot/compression", "engine/src/vault/base64.rs", "engine/src/vault/types/transactions.rs", "client/src/internal/provider.rs"],
 [("bounds checks in the decompressor", "engine/src/snapshot/compression"), ("length checks in decoders", "engine/src")])

prop("P21", "Software transactions are atomic and isolated",
 "A read-write transaction becomes visible either completely or not at all, and only if every variable it used still has the version it was read at; all used variables are locked while versions are validated and values are written. A transaction never observes values from two different commits, and its own earlier writes are what it reads back.",
 ["schedules"], "all interleavings of any number of transactions over any variables",
 "Tests sample schedules of counters; a missing validation shows only under a rare interleaving.",
 ["stm/src/stm/stm.rs", "stm/src/stm/transaction.rs", "stm/src/stm/tvar.rs"],
 [("lock, advance clock, validate, commit", "stm/src/stm/stm.rs"), ("version check on load", "stm/src/stm/transaction.rs")])

prop("P22", "The C interface reports every failure and hands out usable data",
 "Every function of the C interface that can fail returns its failure value (null or false) exactly when the underlying operation failed and records the error for later retrieval; every change it reports as successful has been committed to the snapshot file. Pointers it returns point to the bytes of the result.",
 ["inputs", "fault_sequences"], "every exported C function, every argument and every failing step",
 "There are no tests of the C interface.",
 ["bindings/native/src/lib.rs", "bindings/native/src/wrapper.rs"],
 [("last-error slot", "bindings/native/src/lib.rs"), ("commit after each mutation", "bindings/native/src/wrapper.rs")])

prop("P23", "Passphrases and transient key copies are wiped after use",
 "A passphrase handed to a key provider, and the plaintext key bytes the library copies into its own buffers while storing a snapshot key, are overwritten before the call returns, on success and on failure alike.",
 ["inputs", "fault_sequences"], "every key provider constructor and key-storing operation, on every exit",
 "Tests never inspect memory after a call returns, and error exits are not tested.",
 ["client/src/security/keyprovider.rs", "client/src/types/snapshot.rs", "client/src/procedures/types.rs"],
 [("explicit zeroize before return", "client/src/security/keyprovider.rs"), ("zeroizing containers for products", "client/src/procedures/types.rs")])

prop("P24", "Different paths address different records, the same path always the same",
 "The address of a client, vault or record is a deterministic keyed-hash function of all of its path components (for records: vault path and record path or counter) and of nothing else, so equal paths always reach the same data and different paths never share it. All parts of the library derive addresses in the same way.",
 ["inputs", "programs"], "all client, vault and record paths and counters",
 "Tests use a few short distinct paths; collisions need particular pairs of paths.",
 ["client/src/types/location.rs", "client/src/utils", "client/src/internal/provider.rs", "engine/src/vault/types"],
 [("derivation of vault and record ids", "client/src/utils"), ("location resolution", "client/src/types/location.rs")])

prop("P25", "Each procedure performs the algorithm it is asked for on the inputs given",
 "A procedure parameterised by a key type, hash, cipher or curve executes exactly that primitive, uses every one of its inputs (keys, messages, salts, labels, associated data, nonces, chains), and writes its product to exactly the location the caller named. No parameter is silently ignored or substituted.",
 ["inputs", "configurations"], "every procedure and every value of its algorithm parameters",
 "Round-trip tests do not notice a parameter that is ignored on both sides or an algorithm that is swapped consistently.",
 ["client/src/procedures/primitives.rs", "client/src/procedures/types.rs"],
 [("match over algorithm selectors", "client/src/procedures/primitives.rs"), ("procedure traits", "client/src/procedures/types.rs")])

prop("P26", "No failure of an internal step is swallowed",
 "Whenever a storage, encryption, file, lock or memory-protection step inside a public operation fails, the operation itself fails: the failure is propagated or explicitly turned into a documented outcome, never dropped so that the caller is told the operation succeeded.",
 ["fault_sequences", "inputs"], "every fallible step of every operation in the workspace",
 "Failures of file, memory and crypto calls are not injected by tests.",
 ["client/src", "engine/src", "engine/runtime/src", "bindings/native/src"],
 [("result propagation", "client/src"), ("error conversions", "client/src/types/error.rs")])

prop("P27", "Types shared between threads have no unsynchronised mutable state",
 "Every type the library declares safe to share or send between threads keeps all state that is changed through a shared reference behind a lock or atomic, so concurrent use of one stronghold, client, key or guarded buffer from safe code is free of data races.",
 ["schedules", "programs"], "all concurrent uses of every type declared shareable",
 "A stress test aborts in about one run of ten and is excluded from the suite; races need specific interleavings.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories", "engine/src/vault", "client/src"],
 [("explicit Send/Sync declarations", "engine/runtime/src/boxed.rs"), ("locks around shared state", "client/src/types")])

prop("P28", "Secrets are compared in constant time",
 "Comparing guarded secrets for equality (buffers, keys, guarded memory, and the secret-comparison procedure) inspects all bytes irrespective of where the first difference is, and unequal lengths compare as unequal. No operation of the library uses a comparison of secret bytes that stops early.",
 ["inputs"], "all pairs of secrets",
 "Functional tests cannot observe early exit.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/buffer.rs", "engine/runtime/src/memories/ram_memory.rs", "engine/src/vault/crypto_box.rs", "client/src/procedures/primitives.rs"],
 [("constant-time comparison of boxed memory", "engine/runtime/src/boxed.rs")])

prop("P29", "An operation on one client only reads and writes that client's state",
 "Creating, loading, saving, unloading or purging the client at a path affects only the state stored under that path's client: the id looked up, inserted, written or removed is always the one derived from the given path or carried by the given client handle. Loading a client never hands out another client's data, and a client already loaded is not silently replaced by loading it again.",
 ["inputs", "histories"], "all client paths and handles and all sets of loaded clients",
 "Tests use one or two clients and do not look for cross-talk.",
 ["client/src/types/stronghold.rs", "client/src/types/client.rs", "client/src/types/snapshot.rs"],
 [("client id derived from path", "client/src/types/stronghold.rs"), ("state map keyed by client id", "client/src/types/snapshot.rs")])

prop("P30", "Keys and records are held only encrypted between operations",
 "Between operations, records, the keys filed in a key store and the client states of a loaded snapshot are kept in memory only encrypted (a vault's own copy of its key, used to check later keys, is in guarded memory; the unencrypted store is no secret). Each ciphertext is bound, as associated data, to its own identity: a record's metadata and revocation to the record id, its content to a random content id kept in that metadata, a key to its vault id; so ciphertexts cannot be swapped between records or vaults. Decrypting uses exactly the binding that was used when encrypting.",
 ["histories", "inputs"], "every write into a vault or key store and every read out of it",
 "Tests see only decrypted results; plaintext kept at rest or an unbound ciphertext changes no test.",
 ["engine/src/vault/view.rs", "client/src/security/keystore.rs", "client/src/types/snapshot.rs", "client/src/internal/provider.rs"],
 [("records encrypted with record id as associated data", "engine/src/vault/view.rs"), ("keys encrypted under a session master key", "client/src/security/keystore.rs")])

prop("P31", "Manually managed memory is freed exactly once and never used after",
 "Every raw allocation the library makes (guarded memory, fragments, memory maps, C-interface objects) is owned by exactly one value and released exactly once, including when values are cloned, when allocation is retried and on error paths; no released memory is touched again.",
 ["histories", "fault_sequences", "inputs"], "all sequences of allocation, clone, retry, zeroize and drop",
 "Double frees and use after free need clones or retries that tests do not trigger.",
 ["engine/runtime/src/boxed.rs", "engine/runtime/src/memories/frag.rs", "bindings/native/src/lib.rs"],
 [("owning types with Drop", "engine/runtime/src/memories/frag.rs"), ("Box::into_raw/from_raw pairs", "bindings/native/src/lib.rs")])

prop("P32", "Concurrent users of a client never observe a half-done vault operation",
 "An operation that reads and then changes a client's keys or vaults keeps the locks it needs from its first read to its last write, so that no other thread can see the vault key missing, a record half written or act between check and change. Operations on a shared client therefore behave as if executed one after the other. (The two synchronisation operations are documented as not atomic as a whole; of them only the import into each vault is.)",
 ["schedules"], "all interleavings of operations on clones of one client",
 "Stress tests sample few schedules and only detect a crash.",
 ["client/src/procedures/clientrunner.rs", "client/src/types/client.rs", "client/src/types/stronghold.rs"],
 [("write guards held across take and re-insert", "client/src/procedures/clientrunner.rs"), ("guards held across check and insert", "client/src/types/stronghold.rs")])

prop("P33", "Decompression inverts compression for every input",
 "For every byte string, decompressing the result of compressing it yields the identical byte string. Hence a committed snapshot always loads back byte for byte.",
 ["inputs"], "all byte strings",
 "Tests and random round trips sample inputs.",
 ["engine/src/snapshot/compression"],
 [("LZ4 encoder and decoder", "engine/src/snapshot/compression")])

prop("P34", "Procedures compute what their cryptographic standards define",
 "For every key, message and parameter, the outputs of signing, key derivation, mnemonic, MAC, hash, key exchange and AEAD procedures equal those defined by the respective standards.",
 ["inputs"], "all keys, messages and parameters",
 "Test vectors sample inputs.",
 ["client/src/procedures/primitives.rs"],
 [("delegation to the crypto library", "client/src/procedures/primitives.rs")])

prop("P35", "Read-log-update variables are linearizable",
 "Concurrent readers and writers of a read-log-update variable observe only values some writer committed, in an order consistent with real time, and no committed write is lost.",
 ["schedules"], "all interleavings of readers and writers",
 "Tests sample schedules.",
 ["stm/src/rlu/rlu.rs", "stm/src/rlu/var.rs", "stm/src/rlu/rlog.rs"],
 [("clocks, quiescence and write-back", "stm/src/rlu/rlu.rs")])
