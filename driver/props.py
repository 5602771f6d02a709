"""What every property's check runs, and how its evidence is to be read."""

PROPS = {}


def prop(pid, technique, note, rule, level="exploration", assumptions=()):
    def add(f):
        PROPS[pid] = {"run": f, "technique": technique, "level_note": note, "rule": rule, "level": level,
                      "assumptions": list(assumptions)}
        return f
    return add


@prop("C01", "online reference-model monitor over random operation histories",
      "Exploration: every operation of random histories over several clients, vaults and records is compared with a "
      "model, and the whole content is read back. Trusts the model and the content comparison of the engine's own "
      "secret comparison, cross-checked by full read-back from the committed state.",
      "Histories of writes, copies, concatenations, revocations, deletions, collections and queries drawn from a seed; "
      "distinct counts the different states (contents, revocations) reached after a step.",
      assumptions=["record paths that only differ in trailing zero bytes are left to C23"])
def c01(run):
    run.mon("vault", budget=run.pick(40, 400), shards=8)


@prop("C10", "differential monitor: chains against the same steps one by one on a twin client",
      "Exploration: random chains with a failing step at every position; the complete committed state after a chain is "
      "compared with that of its steps run singly, and after a failure with the state before.",
      "Chains of one to eight random procedures; half of them contain a step that fails. A case is distinct by its "
      "steps, locations and failing position.")
def c10(run):
    run.mon("chains", budget=run.pick(50, 500), shards=8)


@prop("C09", "offline oracle: log of executed procedures against independent implementations of the standards",
      "Exploration: every procedure of the interface over random and boundary inputs, including the reverse operations "
      "and modified ciphertexts; outputs and the secrets at the targets are compared with a separate implementation "
      "(Python, self-tested with the standards' vectors). Trusts that implementation and Python's hashlib.",
      "Procedures over secrets of the sizes that matter and over the results of earlier procedures; distinct counts the "
      "different procedure, argument and secret combinations.")
def c09(run):
    import glob, os
    from concurrent.futures import ProcessPoolExecutor
    import oracle, refcrypto
    refcrypto.selftest()
    log = os.path.join(run.dir("log"), "log")
    run.mon("oracle-log", [log], budget=run.pick(40, 400), shards=8)
    def lines():
        for f in sorted(glob.glob(log + ".*")):
            yield from open(f)
    with ProcessPoolExecutor(8) as ex:
        for bad, counts, keys, sample in ex.map(oracle.check_case, lines(), chunksize=8):
            for k, d in bad:
                run.violation(k, d)
            for k, n in counts.items():
                run.count(k, n)
            for k in keys:
                run.eval(k)
            if sample and len(run.samples) < 4:
                run.samples.append(sample)


@prop("C02", "tampering monitor over the stored form of records with a read-back oracle",
      "Exploration: pieces of stored records are altered, exchanged, moved, rolled back or opened with other keys; every "
      "way of reading must refuse, and no import or procedure may launder the result. Undetectable whole-record rollback "
      "is outside of the property.",
      "Alterations of two versions of the records of up to two vaults; a case is counted as distinct by its kind and the "
      "random position drawn for it.",
      assumptions=["the stored form is the serialization of the database inside a snapshot"])
def c02(run):
    run.mon("tamper", budget=run.pick(50, 500), shards=8)


@prop("C03", "online reference-model monitor over commit and load histories, with read-back in new processes",
      "Exploration: random histories of writes, commits with given and stored keys, loads, purges and resets over several "
      "clients, files and keys; after every commit the file is read back completely and compared, at the end also by a "
      "new process.",
      "Histories over up to four clients, two files and three keys; distinct counts operation and abstract state pairs.",
      assumptions=["what a load leaves of an earlier stored snapshot key is not specified"])
def c03(run):
    run.mon("life", ["snapshots"], budget=run.pick(60, 600), shards=8)


@prop("C28", "online reference-model monitor over the life cycle of clients",
      "Exploration: random histories of create, get, load, unload, purge, write, commit, clear and reset; after every step "
      "the set of clients that can be obtained and the content behind every handle are compared with a model.",
      "Histories over up to four client paths; distinct counts operation and abstract state pairs.",
      assumptions=["creating a client at the path of a loaded one is not specified",
                   "load_client_from_snapshot may give an empty client for an absent one (fixed by an existing test)"])
def c28(run):
    run.mon("life", ["clients"], budget=run.pick(60, 600), shards=8)


@prop("C14", "online reference-model monitor of the store under a controlled wall clock",
      "Exploration: random operations with lifetimes of all lengths, the clock moved to just before, at and after their "
      "ends, scans, serialization and snapshots in between; after every step all three kinds of query are compared with "
      "the model for every key. The clock is controlled by interposing clock_gettime.",
      "Histories over up to seven keys; distinct counts operation and the state (absent, lasting, living, expired) of all keys.",
      assumptions=["at the very nanosecond a lifetime ends both answers are right", "the clock does not go back"])
def c14(run):
    run.mon("store", budget=run.pick(60, 600), shards=8)


@prop("C12", "online reference-model monitor of synchronisation between clients and vaults",
      "Exploration: random contents with conflicts and revocations on three clients of two instances, random selections, "
      "mappings and policies; after every step the complete committed content of all clients is compared with a model of "
      "the merge, and records are used at the target.",
      "Histories of writes, synchronisations and reloads; a case is distinct by the shape of its configuration and the "
      "numbers of records added, replaced, kept and left out; only those that moved or kept records count.",
      assumptions=["a record copied to a mapped vault keeps its record identifier (fixed by an existing test)",
                   "two records mapped to one place are not specified"])
def c12(run):
    run.mon("sync", budget=run.pick(60, 600), shards=8)


@prop("C13", "online reference-model monitor of merging, exporting and importing snapshot states",
      "Exploration: random states of several clients, merged directly or exported for a peer and imported, with random "
      "selections, mappings and policies on clients and vaults; every state is compared completely with a model; altered "
      "exports and wrong keys have to be refused without a change.",
      "Two snapshots merged into each other repeatedly; a case is distinct by the shape of its configuration and the "
      "numbers of records added, replaced, kept and left out; only those that moved or kept records count.",
      assumptions=["a configuration for a client overrides the policy of the snapshot",
                   "the store of a client is not merged", "two records mapped to one place are not specified"])
def c13(run):
    run.mon("merge", budget=run.pick(60, 600), shards=8)


@prop("C05", "fault injection into snapshot files with a state oracle, under a memory limit",
      "Exploration: files with flipped bits, cuts, insertions, parts of other snapshots, arbitrary bytes, wrong keys and "
      "correctly sealed senseless content are loaded in every way; each must be refused and leave the instance as it "
      "was, which is compared with a model; crashes, panics, hangs and memory use are observed.",
      "Damage drawn from a seed; all of the first 96 bytes are hit. A case is distinct by kind and place of the damage.",
      assumptions=["content sealed with the right key may be accepted if it parses; it only must not crash"])
def c05(run):
    run.mon("foreign", budget=run.pick(60, 600), shards=4)
    run.mon("sealed", budget=run.pick(60, 600), shards=8)


@prop("C11", "robustness monitor: hostile requests with liveness probes, overflow checks and a memory limit",
      "Exploration: requests of every public interface with absent, revoked and wrongly sized records, extreme lengths and "
      "counts, odd paths, points and configurations; panics (overflow and debug checks are compiled in), aborts, hangs "
      "and memory use are observed, and after every request the client, its sibling and the instance are probed.",
      "Sixty requests to one instance per case; a case is distinct by the request with its arguments' shape and outcome.",
      assumptions=["work that is merely long because the caller asked for it (an iteration count of billions) is not a hang",
                   "SnapshotPath::named is only used where a home directory can be created"])
def c11(run):
    run.mon("hostile", budget=run.pick(80, 600), shards=8)


@prop("C04", "fault injection at the C library's file operations, with a monitor of flushing and a read-back oracle",
      "Exploration, exhaustive over the operations of each commit made: the process dies before, within or after every file "
      "operation, and every file operation fails with several errors or takes a part of its data; afterwards the file "
      "must be the previous or the complete new snapshot, the instance is compared with a model and commits again. Data "
      "not flushed when it gets its final name counts as lost. The entry points are interposed in the process of the monitor.",
      "Commits of random states, with given and stored keys, over new and existing files; a case is distinct by the fault, "
      "the operation it hit and the outcome.",
      assumptions=["flushed data survives and a rename is atomic (the directory entry itself is not required to be flushed)",
                   "failures of stat calls are not injected"])
def c04(run):
    run.mon("crash", budget=run.pick(40, 400), shards=8)
    run.mon("racing", budget=run.pick(15, 120), shards=4)


@prop("C06", "monitor on every buffer passed to a write call, searched for pieces of the secrets in use; comparison of repeated sealings",
      "Exploration: the process's write, copy and open calls are interposed during random sessions (secrets, paths, "
      "store entries, procedures, passphrases, commits, exports, file-backed shares); every buffer, file name and file left "
      "is searched for any eight bytes of any secret, key or path, also reversed, complemented and in text encodings. "
      "Repeated commits, exports and sealings of one content are compared, nonces and vault keys must not repeat. "
      "It cannot tell a weak cipher from a strong one; C09 and C29 pin the cipher with an independent implementation.",
      "Sessions of some dozens of operations with fresh random secrets; every session counts as distinct.",
      assumptions=["a piece of a secret is recognizable from eight bytes on"])
def c06(run):
    run.mon("leak", budget=run.pick(40, 400), shards=8)


@prop("C07", "monitor probing page protections from outside the language after every step of borrow histories",
      "Exploration: after every step of random histories of borrows (nested, cloned, exclusive, dropped in any order, with "
      "panics while borrowed), whether the kernel can read and write bytes of the memory, past its end and in front "
      "of it is compared with the borrows held; also from concurrent borrowers, and by real accesses in child processes. "
      "Locking and exclusion from dumps are read from the kernel's mapping flags.",
      "Histories over up to five buffers of seven element types; distinct counts step, sizes and borrows held.",
      assumptions=["255 borrows at a time, the number the count allows (fixed by an existing test)",
                   "a canary page of libsodium in front of the data is part of the memory"])
def c07(run):
    run.mon("guard", budget=run.pick(40, 400), shards=8)


@prop("C08", "monitor on memory being given back (munmap, free) and on removed files, searched for pieces of the secrets",
      "Exploration: holders of every kind are used, cloned, refreshed, replaced, zeroized, dropped, moved to other threads and "
      "unwound; at every munmap and free of a large block its content is searched for eight bytes of any secret or "
      "share (the shares are learned from the mappings made), also where memory stays mapped and in the removed backing "
      "files through descriptors opened before. Small temporary blocks of the allocator are not holders and not searched.",
      "Histories over up to five holders of fourteen kinds; distinct counts step, holder and the holders around it.",
      assumptions=["libsodium's own erasing at sodium_free counts", "copies the caller makes are the caller's"])
def c08(run):
    run.mon("erase", budget=run.pick(60, 500), shards=8)


@prop("C18", "online model monitor of fragments with interposed mmap, munmap, malloc and free",
      "Exploration: random histories of allocating, writing, cloning, zeroizing and releasing fragments of nineteen types "
      "and all strategies; after every step the value, place, alignment and separation of every fragment is compared with "
      "a model and with the allocations seen at the C library; at the end nothing may be left, in memory or in values.",
      "Histories over up to fourteen fragments; distinct counts step, type and the states of all fragments.",
      assumptions=["a distance that cannot be had may be refused"])
def c18(run):
    run.mon("frags", budget=run.pick(50, 500), shards=8)


@prop("C19", "online model monitor of file- and RAM-backed shares with every file operation observed",
      "Exploration: random histories of making, reading, cloning, updating, serializing, releasing shares, also by several "
      "threads and with failing file operations, as root and as an ordinary user; data is compared with a model; after "
      "every single file operation the modes and contents of the backing files are examined, and whether memory can be "
      "read from outside.",
      "Histories over up to eight shares; distinct counts step and the kinds, states and sizes of all shares.",
      assumptions=["a file operation that fails may make the use fail, with an error"])
def c19(run):
    run.mon("shares", budget=run.pick(40, 400), shards=4)
    run.mon("shares", ["user"], budget=run.pick(40, 400), shards=4)


@prop("C17", "online model monitor with the shares of every secret observed in memory and files",
      "Exploration: random histories of making, unlocking, refreshing, cloning, updating, comparing and serializing secrets in "
      "all placements, also used by several threads at once and as an ordinary user; secrets are compared with a model, and "
      "the shares, read from the mappings and files that belong to a secret, must be where the configuration puts them, "
      "never repeat a piece of an earlier share or of the secret, and go when they are replaced.",
      "Histories over up to eight secrets from a pool of five; distinct counts step and the placements and secrets held.",
      assumptions=["the share in a file is seen masked, as it is written"])
def c17(run):
    run.mon("nc", budget=run.pick(30, 400), shards=6)
    run.mon("nc", ["user"], budget=run.pick(20, 200), shards=6)


@prop("C20", "differential monitor of the compression against an independent decoder, with size and time limits",
      "Exploration, exhaustive over short strings of few letters and streams of up to two bytes: what the encoder writes is "
      "decoded by the code and by a separate decoder of the block format; generated well-formed streams are decoded to "
      "what they stand for; altered and arbitrary streams are refused or decoded within a size of 255 times the input.",
      "Inputs around the lengths and distances where the format changes its representation; distinct by content.",
      assumptions=["a stream ending after a match is not well-formed: it may be refused or accepted"])
def c20(run):
    run.mon("lz4", budget=run.pick(25, 300), shards=8)


@prop("C21", "differential monitor of text encodings against an independent one, exhaustive over short ones",
      "Exploration, exhaustive over byte strings of up to two bytes and most texts of four characters: encoding is compared "
      "with RFC 4648 (URL-safe, padded), decoding must accept exactly the canonical texts. Identifiers of all types are "
      "made in all ways and printed and serialized next to all identifiers one bit away.",
      "Byte strings and altered texts of random lengths; identifiers with their 192 neighbours; distinct by content.")
def c21(run):
    run.mon("text", budget=run.pick(25, 300), shards=8)


@prop("C22", "offline oracle: log of derived keys against independent implementations; monitor of providers and snapshots in use",
      "Exploration: keys from random and boundary passphrases by every derivation are compared with a separate "
      "implementation (Python's hashlib; Argon2i written from RFC 9106), made again from other types and in other processes, "
      "unlocked many times and by several threads; near passphrases must give other keys, and snapshots open with equal "
      "providers only.",
      "Passphrases with near variants; a case is distinct by method, passphrase, salt and earlier input of the digest.",
      assumptions=["the truncating derivation pads with zeros, as documented, so that passphrases may coincide there"])
def c22(run):
    import glob, os
    import oracle
    logs = []
    for k, extra in enumerate([{}, {"LANG": "tr_TR.UTF-8", "TZ": "Asia/Tokyo", "MALLOC_PERTURB_": "77"}]):
        log = os.path.join(run.dir(f"log{k}"), "log")
        # the second time in other processes, from the same seed
        run.mon("passphrases", [log], budget=run.pick([25, 8][k], [300, 60][k]), shards=8, extra=extra)
        logs.append([open(f).read().splitlines() for f in sorted(glob.glob(log + ".*"))])
    argon2 = run.cc("argon2i", "argon2i.c", ["-O2"])
    bad, counts = oracle.passphrase_keys(argon2, [l for f in logs[0] for l in f])
    for k, d in bad:
        run.violation(k, d)
    for k, n in counts.items():
        run.count(k, n)
    for a, b in zip(*logs):
        for x, y in zip(a, b):
            run.count("keys compared between processes")
            if x != y:
                run.violation("keys/processes", {"one": x, "other": y})


@prop("C23", "monitor of injectivity over near paths, in use and between processes",
      "Exploration: sets of paths with near variants (bits, prefixes, borders, cases, encodings, counters and their texts) are "
      "resolved in all ways, by several threads and in several processes; no two may share an identifier, and a sample is "
      "written, found, deleted and committed through the API. The derivation itself is pinned by C29.",
      "Sets of up to eight vault and some twenty record paths with counters; a case is distinct by its paths.")
def c23(run):
    import glob, os
    run.mon("paths", budget=run.pick(30, 300), shards=8)
    logs = []
    for k, extra in enumerate([{}, {"LANG": "tr_TR.UTF-8", "TZ": "Asia/Tokyo"}, {"LC_ALL": "C", "MALLOC_PERTURB_": "77"}]):
        log = os.path.join(run.dir(f"log{k}"), "log")
        run.mon("paths", [log, str(run.pick(400, 4000))], budget=120, shards=4, extra=extra)
        logs.append([l for f in sorted(glob.glob(log + ".*")) for l in open(f)])
    run.count("identifiers compared between processes", len(logs[0]))
    if not len(logs[0]) == len(logs[1]) == len(logs[2]):
        run.violation("paths/processes", {"lines": [len(l) for l in logs]})
    for ls in zip(*logs):
        if len(set(ls)) > 1:
            run.violation("paths/processes", {"identifiers": ls})
            break


@prop("C29", "monitor of the code over recorded files, and an independent reader over the files it writes now",
      "Exploration: snapshots and exports recorded from the pinned version are loaded, compared completely with what was "
      "put in, changed and committed again; new ones are written and read by a separate reader of the format (Python, "
      "tested on the recorded files). The derivation of identifiers is compared with its formula.",
      "Recorded files and new ones of random content; distinct counts files and paths.",
      assumptions=["the recorded files stand for all contents; the formula of identifiers for all paths"])
def c29(run):
    import glob, os
    from concurrent.futures import ProcessPoolExecutor
    import oracle, snapfile
    golden = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "golden")
    run.mon("golden-check", [golden], budget=200, shards=8)
    new = run.dir("new")
    run.mon("golden-make", [new, str(run.pick(48, 400))], budget=run.pick(60, 400), shards=8)
    old = snapfile.entries(golden)
    with ProcessPoolExecutor(8) as ex:
        for d, f in (("recorded", old), ("new", snapfile.entries(new))):
            for (name, err, n) in ex.map(snapfile.check_file, f):
                run.eval((d, name))
                run.count(f"{d} files read by the separate reader")
                run.count("records read by the separate reader", n)
                if err and d == "recorded":
                    raise RuntimeError(f"the separate reader cannot read {name}: {err}")
                if err:
                    run.violation("golden/layout", {"file": name, "what": err})
    run.mon("golden-check", [new], budget=run.pick(100, 400), shards=8, repeat=1)
    log = os.path.join(run.dir("log"), "log")
    run.mon("paths", [log, str(run.pick(400, 4000))], budget=120, shards=4)
    bad, n = oracle.identifiers(l for f in sorted(glob.glob(log + ".*")) for l in open(f))
    run.count("identifiers compared with the formula", n)
    for k, d in bad:
        run.violation(k, d)


@prop("C15", "offline linearizability checker over logs of concurrent calls, with delays injected inside the calls",
      "Exploration: up to four threads make calls on one client (and its store, chains and commits included), or on the "
      "list of clients of an instance; an order of the calls, in their single steps, that gives all results and the final "
      "state and respects real time is searched for with a model. Threads yield or wait at random at allocations inside "
      "the calls.",
      "Histories of up to thirty calls over at most six records and three keys; distinct counts those with different "
      "orders of begins and ends, and results, in which calls overlap.",
      assumptions=["synchronization between clients or vaults is not atomic, as its documentation says",
                   "a chain is not isolated as a whole"])
def c15(run):
    run.mon("lin", budget=run.pick(50, 500), shards=8)
    run.mon("registry", budget=run.pick(25, 200), shards=8)


@prop("C24", "offline serializability and opacity checker over logs of transaction attempts, with delays injected inside",
      "Exploration: random transactions of up to five threads over up to four variables of all types, some failing at first or "
      "panicking; every attempt is logged with the values it read. An order of all transactions and all failed attempts "
      "in which each sees one state, and that respects real time, is searched for. Loads of short transactions check "
      "sums, identifiers and progress.",
      "Histories of up to 25 transactions; distinct counts the orders of begins and ends of all attempts and their outcomes.",
      assumptions=["a closure that returns an error is tried again, as documented", "all variables belong to one instance",
                   "sleeping inside the code is sped up a thousandfold"])
def c24(run):
    run.mon("stm", budget=run.pick(40, 400), shards=12)
    run.mon("stm-load", budget=run.pick(20, 200), shards=6)


TSAN = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:detect_deadlocks=1:second_deadlock_stack=1"}


@prop("C16", "data race detector (ThreadSanitizer) under stress, and delay injection with a watch for calls that do not return",
      "Exploration: two to eight threads call into two shared instances, their clients, stores and snapshot files, in random "
      "mixtures of 32 kinds of calls (synchronisation in both directions, clear, purge, load, commit and procedures among "
      "them), and use shared guarded buffers, split secrets of all kinds, shares in RAM and files, and fragments. The same "
      "is done in a build with ThreadSanitizer, which also runs the workloads of C15 and C24.",
      "Every mixture is evaluated once: no race report, no panic, no error of a broken lock, every call returns within 60 s, "
      "and everything can be used afterwards; distinct counts the orders in which the calls of all threads ended.",
      assumptions=["libsodium and other C code is not instrumented; accesses to memory it allocates are seen in Rust code",
                   "the sanitizer sees only races on executions that took place"])
def c16(run):
    run.mon("stress", budget=run.pick(25, 300), shards=8)
    run.mon("stress-memory", budget=run.pick(12, 100), shards=8)
    run.build("tsan")
    run.mon("stress", budget=run.pick(45, 500), shards=8, kind="tsan", extra=TSAN)
    run.mon("stress-memory", budget=run.pick(25, 200), shards=8, kind="tsan", extra=TSAN)
    run.mon("registry", budget=run.pick(10, 60), shards=8, kind="tsan", extra=TSAN)
    run.mon("lin", budget=run.pick(20, 150), shards=8, kind="tsan", extra=TSAN)
    run.mon("stm", budget=run.pick(10, 60), shards=8, kind="tsan", extra=TSAN)
    if not run.quick:
        run.mon("stress", budget=200, shards=8, kind="asan", repeat=1)
        run.mon("stress-memory", budget=100, shards=8, kind="asan", repeat=1)


@prop("C26", "non-interference monitor: texts of the same value with different secrets, searched for pieces of the secrets",
      "Exploration: every type that holds or guards secrets is printed in all formats its traits offer (a trait added later is "
      "noticed when the monitor is compiled), as are the errors of failing operations on secrets, keys and files, panics, log "
      "lines of all levels and what the code writes to its standard streams. Texts must not depend on the secret and must not "
      "hold eight bytes of it in any common encoding.",
      "Values of random shapes made twice with different secrets; distinct counts the different texts per kind of value.",
      assumptions=["outputs of procedures are, as documented, not secret and not guarded", "paths, identifiers and store values are not secret",
                   "secrets of at least eight bytes"])
def c26(run):
    run.mon("redact", budget=run.pick(25, 250), shards=8)


@prop("C27", "reference-model monitor driving the built shared library through its C interface, also under "
      "AddressSanitizer, with independent decoding of the files and recomputation of keys and signatures",
      "Exploration: random histories of all functions of the interface over several handles, files and threads, with failing "
      "calls of every kind (wrong passwords, damaged and absent files, impossible places, absent and unsuitable records, "
      "strings that are not UTF-8). Arguments lie in buffers of exactly their size that are gone after the call; returned "
      "buffers are owned, held over other calls, overwritten and released in random order, and every kind of call is "
      "repeated while the allocated memory is watched. Trusts the model, the snapshot reader and the reference "
      "cryptography, and AddressSanitizer for accesses in instrumented code.",
      "Evaluations are calls whose result was judged and repetitions watched for memory left behind; distinct counts the "
      "file contents (password and records) that were decoded and compared.",
      assumptions=["handles, buffers and strings given by the caller are valid and not null; a handle is used by one thread "
                   "at a time"])
def c27(run):
    import os, subprocess, sys
    from run import CheckError, VERIF
    import refcrypto
    refcrypto.selftest()
    py = os.path.join(VERIF, "driver", "native.py")
    run.mon("native", budget=run.pick(25, 200), shards=8, program=[sys.executable, py, run.native("rel")])
    rt = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    if not os.path.exists(rt):
        raise CheckError("no AddressSanitizer runtime to preload")
    env = {"LD_PRELOAD": rt, "ASAN_OPTIONS": "detect_leaks=0:exitcode=66", "PYTHONMALLOC": "malloc"}
    run.mon("native", ["asan"], budget=run.pick(40, 300), shards=8, extra=env,
            program=[sys.executable, py, run.native("asan")])


@prop("C30", "offline statistical and uniqueness tests over logs of everything generated in many threads and processes, "
      "with the operating system's randomness counted and made to fail",
      "Exploration: values of all generators, collected from threads, processes and forked processes that use the same paths, "
      "are tested together: every aligned run of eight bytes is new across all of them, every bit is set half of the time, "
      "bytes depend neither on each other nor on the call before. Mnemonics are decoded and their seeds recomputed "
      "independently. First calls in new processes must take as much of the operating system's randomness as they claim "
      "strength, and nothing may be made of randomness that failed. Statistics do not tell a strong generator from a weak one; "
      "the counts are what does.",
      "Evaluations are generated values and counted or failing requests; distinct counts the different runs of eight bytes.")
def c30(run):
    import glob, os
    from concurrent.futures import ProcessPoolExecutor
    import freshness as fr, refcrypto
    refcrypto.selftest()
    base = os.path.join(run.dir("log"), "log")
    run.mon("fresh", [base], budget=run.pick(25, 250), shards=8)
    streams, texts, logs = fr.read(base)
    with ProcessPoolExecutor(8) as ex:
        words = fr.mnemonics(logs)
        for err, entropy in ex.map(fr.check_mnemonic, words, chunksize=16):
            run.count("mnemonics decoded")
            if err:
                run.violation("fresh/mnemonic", {"what": err})
            else:
                streams["mnemonic entropy"].append(entropy)
        for vals in ex.map(fr.from_snapshot, sorted(glob.glob(base + ".snapshot.*"))):
            run.count("snapshots decoded")
            for name, v in vals:
                streams[name].append(v)
        jobs = []
        for name, vals in sorted(streams.items()):
            run.count("values: " + name, len(vals))
            run.count("evaluations", len(vals))
            size = max(map(len, vals))
            if any(len(v) != size for v in vals):
                run.violation("fresh/length", {"what": f"values of {name!r} have different lengths",
                                               "lengths": sorted({len(v) for v in vals})})
            elif len(vals) >= 100:
                jobs.append((name, vals))
        for name, bad in ex.map(fr.column_job, jobs):
            run.count("streams tested")
            for b in bad[:3]:
                run.violation("fresh/" + b[0].replace(" ", "-"), {"stream": name, "where": b[1], "what": b[2]})
    bad, n = fr.windows(streams)
    for name, vals in texts.items():
        run.count("values: " + name[5:], len(vals))
        run.count("evaluations", len(vals))
        bad += [b for b in fr.text(name, vals)]
    for b in bad[:10]:
        run.violation("fresh/" + b[0].replace(" ", "-"), {"where": b[1], "what": b[2]})
    run.count("runs of eight bytes compared", n)
    seen = run.distinct.setdefault("nontrivial", set())
    for vals in streams.values():
        for v in vals:
            seen.update(int.from_bytes(v[i:i + 8], "big") for i in range(0, len(v) - 7, 8))
    run.samples += [{k: v[0].hex() for k, v in sorted(streams.items())[:6]}]
