"""Drives the built shared library of the native interface through its C interface: native.py <library> <report options>

Random histories over several handles and files, in one or several threads, against a model of what the handles and the
files hold. Every file is decoded independently after a commit (snapfile), keys and signatures are recomputed
(refcrypto). Under AddressSanitizer the same histories also watch what is read, released and left behind."""
import argparse, ctypes as C, hashlib, json, os, random, shutil, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

import refcrypto as rc, snapfile

P, U8P, SZ = C.c_void_p, C.c_void_p, C.c_size_t
SIGS = {
    "stronghold_set_log_level": (None, [SZ]), "stronghold_get_last_error": (P, []), "stronghold_destroy_error": (None, [P]),
    "stronghold_create": (P, [P, P]), "stronghold_load": (P, [P, P]), "stronghold_destroy_stronghold": (None, [P]),
    "stronghold_destroy_data_pointer": (None, [P]), "stronghold_generate_ed25519_keypair": (P, [P, P, P]),
    "stronghold_write_vault": (C.c_bool, [P, P, P, U8P, SZ]), "stronghold_generate_seed": (C.c_bool, [P, P]),
    "stronghold_derive_seed": (C.c_bool, [P, P, C.c_uint32]), "stronghold_get_public_key": (P, [P, P]),
    "stronghold_sign": (P, [P, P, U8P, SZ]),
}
libc = C.CDLL(None)
libc.malloc.restype, libc.malloc.argtypes, libc.free.argtypes = P, [SZ], [P]
ID = lambda data, path: rc.hmac("Sha512", path, data)[:24]
VAULT = CLIENT = ID(b"wasp", b"wasp")
REC = lambda name: (VAULT, ID(VAULT, name))


class Violation(Exception):
    def __init__(self, key, what):
        self.key, self.what = key, what


def need(ok, key, what):
    if not ok:
        raise Violation(key, what)


class Lib:
    def __init__(self, path):
        self.l = C.CDLL(path)
        for n, (r, a) in SIGS.items():
            f = getattr(self.l, n)
            f.restype, f.argtypes = r, a
            setattr(self, n[11:], f)
        try:
            s = C.CDLL(None)
            self.owned, self.size, self.bytes = (getattr(s, "__sanitizer_" + n) for n in
                                                 ("get_ownership", "get_allocated_size", "get_current_allocated_bytes"))
            self.owned.argtypes, self.size.argtypes, self.size.restype, self.bytes.restype = [P], [P], SZ, SZ
            self.asan = True
        except AttributeError:
            self.asan = False

    def call(self, name, *args):
        """Strings and byte strings are given in buffers of exactly their size, which are gone after the call."""
        bufs, conv = [], []
        for a in args:
            if isinstance(a, (str, bytes)):
                b = (a.encode() + b"\0") if isinstance(a, str) else a
                p = libc.malloc(len(b))
                C.memmove(p, b, len(b))
                bufs.append((p, len(b)))
                conv.append(p)
            else:
                conv.append(a)
        r = getattr(self, name)(*conv)
        for p, n in bufs:
            C.memset(p, 0xA5, n)
            libc.free(p)
        return r

    def error(self):
        p = self.get_last_error()
        if not p:
            return None
        s = C.string_at(p)
        self.destroy_error(p)
        return s


def cstr(b):
    """A string argument given as raw bytes."""
    return b + b"\0"


class Handle:
    def __init__(self, ptr, path, recs):
        self.ptr, self.path, self.recs = ptr, path, recs


class World:
    """A history: its handles, its files, and what they should hold."""

    def __init__(self, lib, rng, d, rep, workers):
        self.lib, self.rng, self.d, self.rep, self.workers = lib, rng, d, rep, workers
        self.dirs = [os.path.join(d, n) for n in ("a", "b")]
        for x in self.dirs:
            os.makedirs(x, exist_ok=True)
        self.paths = [os.path.join(x, n) for x in self.dirs for n in ("one", "zw\u00f6lf.stronghold")]
        self.files, self.handles, self.held, self.trace = {}, [], [], []
        self.fresh = {}

    # -- calls and what every call has to satisfy

    def on(self, f, *a):
        """Runs a step in the thread of the history or in another one."""
        if self.workers and self.rng.random() < 0.3:
            return self.rng.choice(self.workers).submit(f, *a).result()
        return f(*a)

    def step(self, name, *args, ok, size=None):
        """A call that must succeed (True) or fail (False), or may do either (None); returns the result or None."""
        self.rep.counts["calls of " + name] = self.rep.counts.get("calls of " + name, 0) + 1
        self.rep.counts["evaluations"] = self.rep.counts.get("evaluations", 0) + 1

        def run():
            if self.rng.random() < 0.8:
                self.lib.error()
                clear = True
            else:
                clear = False
            r = self.lib.call(name, *args)
            if r:
                if clear:
                    m = self.lib.error()
                    need(m is None, "message-without-failure", f"{name} succeeded, but left the message {m!r}")
                return r, None
            m = self.lib.error()
            need(m is not None, "no-message", f"{name} failed without a message")
            try:
                t = m.decode()
            except UnicodeDecodeError:
                raise Violation("unreadable-message", f"{name} failed with {m!r}")
            need(t.strip() and t.isprintable(), "unreadable-message", f"{name} failed with {m!r}")
            return r, t

        r, msg = self.on(run)
        shown = [a if not isinstance(a, bytes) else a[:40].hex() for a in args if not isinstance(a, int)]
        self.trace.append(f"{name}{shown} -> {'ok' if r else msg}")
        if ok is True:
            need(r, "refused", f"{name} failed: {msg}")
        elif ok is False:
            need(not r, "accepted", f"{name} succeeded")
        if not r:
            self.rep.counts["failures with message"] = self.rep.counts.get("failures with message", 0) + 1
            self.rep.distinct.setdefault("messages", set()).add(h64(msg))
        return r or None

    def data(self, ptr, n, what):
        """Takes over a returned buffer of `n` bytes."""
        if self.lib.asan:
            need(self.lib.owned(ptr), "not-owned", f"{what}: the returned pointer is no memory of its own")
            need(self.lib.size(ptr) >= n, "short-buffer", f"{what}: {self.lib.size(ptr)} bytes instead of {n}")
        need(all(ptr != p for p, _ in self.held), "shared-buffer", f"{what}: a buffer still held was returned again")
        b = C.string_at(ptr, n)
        if self.rng.random() < 0.3:
            C.memset(ptr, 0x5A, n)
            self.held.append((ptr, b"\x5a" * n))
        else:
            self.held.append((ptr, b))
        while len(self.held) > self.rng.randrange(12):
            self.release()
        return b

    def release(self):
        p, b = self.held.pop(self.rng.randrange(len(self.held)))
        need(C.string_at(p, len(b)) == b, "changed-buffer", "a returned buffer changed while it was held")
        self.on(self.lib.destroy_data_pointer, p)
        self.rep.counts["buffers released"] = self.rep.counts.get("buffers released", 0) + 1

    # -- the model

    def read_file(self, path, pw):
        data = open(path, "rb").read()
        need(data[:7] == snapfile.MAGIC + snapfile.VERSION, "bad-file", f"header {data[:7].hex()}")
        st = snapfile.state(snapfile.unseal(data[7:], hashlib.blake2b(pw.encode(), digest_size=32).digest()))
        need(set(st) == {CLIENT}, "bad-file", f"{len(st)} clients in the file")
        recs, store, _ = st[CLIENT]
        need(not store, "bad-file", "the file holds store entries")
        return recs

    def committed(self, h, pw, name=None, n=None):
        """The file of a handle must now hold what the handle does; a record `name` is new, of `n` random bytes."""
        try:
            have = self.read_file(h.path, pw)
        except (snapfile.Bad, IndexError, OSError) as e:
            raise Violation("bad-file", f"{h.path}: {type(e).__name__}: {e}")
        if name is not None and REC(name) in have:
            v = have[REC(name)]
            need(v is not None and len(v) == n, "generated-length", f"{len(v or b'')} bytes instead of {n}")
            old = h.recs.get(REC(name))
            if old is not None and len(old) == n:
                # Generating over a key of the same size may keep it, as the library itself does.
                need(v == old or v not in self.fresh, "repeated", "a generated secret was seen before")
            else:
                need(v not in self.fresh, "repeated", "a generated secret was seen before")
            self.fresh[v] = True
            h.recs[REC(name)] = v
        if have != h.recs:
            bad = [k for k in set(have) | set(h.recs) if have.get(k, 0) != h.recs.get(k, 0)]
            raise Violation("file-content", f"{len(have)} records instead of {len(h.recs)}, {len(bad)} differ: "
                            f"{[(len(have.get(k) or b''), len(h.recs.get(k) or b'')) for k in bad[:3]]}")
        self.files[h.path] = (pw, dict(h.recs))
        self.rep.counts["files decoded"] = self.rep.counts.get("files decoded", 0) + 1
        self.rep.distinct.setdefault("nontrivial", set()).add(h64(repr((pw, sorted(h.recs.items())))))

    def unchanged(self):
        for p, (pw, recs) in self.files.items():
            need(os.path.exists(p), "file-lost", f"{p} is gone")
        if self.files:
            p = self.rng.choice(sorted(self.files))
            pw, recs = self.files[p]
            try:
                need(self.read_file(p, pw) == recs, "file-content", f"{p} changed without a call on it")
            except (snapfile.Bad, IndexError, OSError) as e:
                raise Violation("bad-file", f"{p}: {type(e).__name__}: {e}")

    # -- inputs

    NAMES = [b"seed", b"seed.0", b"seed.7", b"k", b"a key", "schl\u00fcssel".encode(), b"wasp", b"x" * 70]
    PWS = ["password", "", "p\u00e4ssw\u00f6rd \U0001F511", "a" * 300, "password "]

    def name(self, h=None):
        if h and h.recs and self.rng.random() < 0.7:
            known = [n for n in self.NAMES if REC(n) in h.recs]
            if known:
                return self.rng.choice(known)
        return self.rng.choice(self.NAMES)

    def blob(self):
        n = self.rng.choice([1, 31, 32, 32, 32, 33, 64, self.rng.randrange(1, 300), self.rng.randrange(1, 5000)])
        return self.rng.randbytes(n)

    def go(self, steps):
        r = self.rng
        for _ in range(steps):
            op = r.choices(("create", "load", "load-wrong", "destroy", "key", "write", "seed", "derive", "public", "sign",
                            "bad-string", "bad-place", "release", "misc"),
                           (6, 8, 5, 4, 8, 10, 5, 9, 14, 14, 5, 4, 4, 3))[0]
            if op in ("key", "write", "seed", "derive", "public", "sign", "destroy") and not self.handles:
                op = "create"
            if op == "create" and len(self.handles) > 3:
                op = "destroy"
            getattr(self, "op_" + op.replace("-", "_"))()
            if r.random() < 0.1:
                self.unchanged()
        while self.handles:
            self.op_destroy()
        while self.held:
            self.release()
        # What the files hold is what a new handle has.
        for p in sorted(self.files):
            self.op_load(p)
            self.use(self.handles[-1])
            self.op_destroy()
        while self.held:
            self.release()

    def use(self, h):
        for n in self.NAMES:
            if REC(n) in h.recs:
                self.op_public(h, n)
                self.op_sign(h, n)

    def op_create(self):
        p, pw = self.rng.choice(self.paths), self.rng.choice(self.PWS)
        ptr = self.step("create", p, pw, ok=True)
        h = Handle(ptr, p, {})
        self.handles.append(h)
        self.committed(h, pw)

    def op_load(self, p=None):
        if not self.files:
            return
        p = p or self.rng.choice(sorted(self.files))
        pw, recs = self.files[p]
        self.handles.append(Handle(self.step("load", p, pw, ok=True), p, dict(recs)))
        if len(self.handles) > 6:
            self.op_destroy()

    def op_load_wrong(self):
        k = self.rng.randrange(3)
        if k == 0 and self.files:
            p = self.rng.choice(sorted(self.files))
            self.step("load", p, self.rng.choice([x for x in self.PWS if x != self.files[p][0]]), ok=False)
        elif k == 1:
            p = os.path.join(self.d, "bad")
            data = b"PARTI\x02\x00" + self.rng.randbytes(self.rng.choice([0, 10, 48, 49, 200]))
            if self.files and self.rng.random() < 0.7:
                good = self.rng.choice(sorted(self.files))
                data = bytearray(open(good, "rb").read())
                if self.rng.random() < 0.5:
                    # Not the highest bit of the ephemeral public key, which X25519 ignores.
                    i = self.rng.randrange(len(data))
                    data[i] ^= 1 << self.rng.randrange(7)
                else:
                    del data[self.rng.randrange(len(data)):]
                self.put(p, bytes(data))
                self.step("load", p, self.files[good][0], ok=False)
                return
            self.put(p, data)
            self.step("load", p, self.rng.choice(self.PWS), ok=False)
        else:
            p = self.rng.choice([os.path.join(self.d, "absent"), self.d, os.path.join(self.d, "no", "such")])
            self.step("load", p, self.rng.choice(self.PWS), ok=False)

    def put(self, p, data):
        with open(p, "wb") as f:
            f.write(data)

    def op_destroy(self):
        h = self.handles.pop(self.rng.randrange(len(self.handles)))
        self.trace.append("destroy")
        self.on(self.lib.destroy_stronghold, h.ptr)
        self.rep.counts["handles released"] = self.rep.counts.get("handles released", 0) + 1

    def op_key(self):
        h, pw = self.rng.choice(self.handles), self.rng.choice(self.PWS)
        n = self.name()
        ptr = self.step("generate_ed25519_keypair", h.ptr, pw, cstr(n), ok=True)
        need(self.data(ptr, 1, "generate_ed25519_keypair") != b"\0", "result", "generate_ed25519_keypair returned 0")
        self.committed(h, pw, n, 32)

    def op_write(self):
        h, pw, n, b = self.rng.choice(self.handles), self.rng.choice(self.PWS), self.name(), self.blob()
        self.step("write_vault", h.ptr, pw, cstr(n), b, len(b), ok=True)
        h.recs[REC(n)] = b
        self.committed(h, pw)

    def op_seed(self):
        h, pw = self.rng.choice(self.handles), self.rng.choice(self.PWS)
        self.step("generate_seed", h.ptr, pw, ok=True)
        self.committed(h, pw, b"seed", 32)

    def op_derive(self):
        h, pw = self.rng.choice(self.handles), self.rng.choice(self.PWS)
        i = self.rng.choice([0, 1, 7, 7, 2**31 - 1, self.rng.randrange(2**31)])
        s = h.recs.get(REC(b"seed"))
        self.step("derive_seed", h.ptr, pw, C.c_uint32(i), ok=s is not None)
        if s is not None:
            hard = [x | 1 << 31 for x in (44, 4218, 0, 0, i)]
            h.recs[REC(b"seed.%d" % i)] = rc.slip10_derive(rc.slip10_master(s), hard)
            self.committed(h, pw)

    def op_public(self, h=None, n=None):
        h = h or self.rng.choice(self.handles)
        n = n or self.name(h)
        s = h.recs.get(REC(n))
        ok = s is not None and len(s) >= 32
        p = self.step("get_public_key", h.ptr, cstr(n), ok=ok)
        if ok:
            b = self.data(p, 32, "get_public_key")
            need(b == rc.ed25519_public(s[:32]), "public-key", f"{b.hex()} instead of {rc.ed25519_public(s[:32]).hex()}")

    def op_sign(self, h=None, n=None):
        h = h or self.rng.choice(self.handles)
        n = n or self.name(h)
        s = h.recs.get(REC(n))
        ok = s is not None and len(s) >= 32
        m = self.blob() if self.rng.random() < 0.9 else b""
        p = self.step("sign", h.ptr, cstr(n), m, len(m), ok=ok)
        if ok:
            b = self.data(p, 64, "sign")
            need(b == rc.ed25519_sign(s[:32], m), "signature", f"{b.hex()} is not the signature of {len(m)} bytes")

    def op_bad_string(self):
        bad = cstr(self.rng.choice([b"\xff", b"abc\x80", b"\xc3", b"\xed\xa0\x80"]))
        good = self.paths[0]
        if not self.handles or self.rng.random() < 0.4:
            f = self.rng.choice(["create", "load"])
            a = self.rng.choice([(bad, "password"), (good, bad), (bad, bad)])
            self.step(f, *a, ok=False)
            return
        h = self.rng.choice(self.handles)
        f, a = self.rng.choice([
            ("generate_ed25519_keypair", (bad, b"k\0")), ("generate_ed25519_keypair", ("password", bad)),
            ("write_vault", (bad, b"k\0", b"data", 4)), ("write_vault", ("password", bad, b"data", 4)),
            ("generate_seed", (bad,)), ("derive_seed", (bad, C.c_uint32(1))), ("get_public_key", (bad,)),
            ("sign", (bad, b"data", 4))])
        self.step(f, h.ptr, *a, ok=False)

    def op_bad_place(self):
        """A file takes the place of the directory of a handle: the next commit fails, and works again once it is back."""
        f = os.path.join(self.d, "file")
        self.put(f, b"x")
        for p in (self.d, os.path.join(f, "x")):
            self.step("create", p, "password", ok=False)
        if not self.handles:
            return
        h = self.rng.choice(self.handles)
        d = os.path.dirname(h.path)
        os.rename(d, d + ".away")
        self.put(d, b"x")
        try:
            n, k = self.rng.choice(self.NAMES), self.rng.randrange(2)
            if k == 0:
                b = self.blob()
                self.step("write_vault", h.ptr, "password", cstr(n), b, len(b), ok=False)
            else:
                self.step("generate_ed25519_keypair", h.ptr, "password", cstr(n), ok=False)
        finally:
            os.remove(d)
            os.rename(d + ".away", d)
        # Whether the handle keeps what could not be committed is its own business: its next commit tells.
        self.unchanged()
        before = dict(h.recs)
        self.step("generate_seed", h.ptr, "password", ok=True)
        try:
            have = self.read_file(h.path, "password")
        except (snapfile.Bad, IndexError, OSError) as e:
            raise Violation("bad-file", f"{h.path}: {type(e).__name__}: {e}")
        if REC(n) in have and have[REC(n)] != before.get(REC(n)):
            v = have[REC(n)]
            need(n == b"seed" or v == b if k == 0 else len(v) == 32, "file-content", "a value that was never given")
            if n != b"seed":
                h.recs[REC(n)] = v
            elif k == 0 and v == b:
                h.recs[REC(n)] = v
        self.committed(h, "password", b"seed", 32)

    def op_release(self):
        if self.held:
            self.release()

    def op_misc(self):
        k = self.rng.randrange(4)
        if k == 0:
            self.on(self.lib.destroy_error, None)
        elif k == 1:
            self.on(self.lib.destroy_data_pointer, None)
        elif k == 2:
            self.on(self.lib.destroy_stronghold, None)
        else:
            # A message belongs to the thread whose call failed.
            def fail():
                self.lib.error()
                self.lib.call("load", os.path.join(self.d, "absent"), "x")
            if self.workers:
                a, b = self.rng.sample(self.workers, 2)
                a.submit(fail).result()
                b.submit(self.lib.error).result()
                m = a.submit(self.lib.error).result()
                need(m, "message-of-other-thread", "the message of a failure was taken by another thread")


def h64(x):
    return int(hashlib.sha1(x.encode()).hexdigest()[:15], 16)


class Report:
    def __init__(self):
        self.counts, self.distinct, self.samples, self.notes, self.violations = {}, {}, [], [], []


def leaks(lib, rng, d, rep):
    """Repeats every kind of call, with its release, and watches whether each repetition leaves memory behind."""
    f, f2 = os.path.join(d, "leak"), os.path.join(d, "leak2")
    h = lib.call("create", f, "password")
    lib.call("generate_seed", h, "password")

    def failing(name, *a):
        need(not lib.call(name, *a), "accepted", f"{name} succeeded")
        p = lib.get_last_error()
        need(p, "no-message", f"{name} failed without a message")
        lib.destroy_error(p)

    kinds = {
        "create": lambda: lib.destroy_stronghold(lib.call("create", f2, "password")),
        "load": lambda: lib.destroy_stronghold(lib.call("load", f, "password")),
        "load with a wrong password": lambda: failing("load", f, "wrong"),
        "load of an absent file": lambda: failing("load", f + "no", "x"),
        "create below a file": lambda: failing("create", f + "/x", "x"),
        "bad string": lambda: failing("get_public_key", h, b"\xff\0"),
        "public key": lambda: lib.destroy_data_pointer(lib.call("get_public_key", h, b"seed\0")),
        "public key of an absent record": lambda: failing("get_public_key", h, b"absent\0"),
        "sign": lambda: lib.destroy_data_pointer(lib.call("sign", h, b"seed\0", b"message", 7)),
        "keypair": lambda: lib.destroy_data_pointer(lib.call("generate_ed25519_keypair", h, "password", b"k\0")),
        "write": lambda: lib.call("write_vault", h, "password", b"w\0", b"data", 4),
        "derive": lambda: lib.call("derive_seed", h, "password", C.c_uint32(3)),
        "last error": lambda: lib.error(),
    }
    import gc
    gc.disable()
    maps = lambda: open("/proc/self/maps", "rb").read().count(b"\n")
    for name, repeat in kinds.items():
        for _ in range(3):
            repeat()
        left, m0 = [0] * 10, maps()
        for i in range(10):
            a = lib.bytes()
            repeat()
            left[i] = lib.bytes() - a
        m = maps() - m0
        rep.counts["evaluations"] = rep.counts.get("evaluations", 0) + 10
        rep.counts["repetitions watched for memory left behind"] = \
            rep.counts.get("repetitions watched for memory left behind", 0) + 10
        need(sum(x > 0 for x in left) < 9, "leak", f"{name}: each repetition leaves memory: {left}")
        need(m < 20, "leak", f"{name}: {m} mappings more after ten repetitions")
    gc.enable()
    lib.destroy_stronghold(h)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("lib")
    for o in ("seed", "tier", "scratch", "out", "budget", "shard"):
        ap.add_argument("--" + o)
    a = ap.parse_args()
    k = int(a.shard.split("/")[0])
    lib, rep = Lib(a.lib), Report()
    end = time.time() + float(a.budget)
    rng = random.Random(f"{a.seed}/{a.shard}/{lib.asan}")
    workers = [ThreadPoolExecutor(1) for _ in range(3)]
    if k % 4 == 3:
        lib.set_log_level(rng.randrange(7))
    n = 0
    while time.time() < end and len(rep.violations) < 5:
        d = os.path.join(a.scratch, f"h{n}")
        os.makedirs(d)
        threads = 1 if rng.random() < 0.6 else 3
        worlds = []
        for t in range(threads):
            os.makedirs(os.path.join(d, str(t)))
            worlds.append(World(lib, random.Random(rng.random()), os.path.join(d, str(t)), rep, workers if threads == 1 else ()))

        def run(w):
            try:
                w.go(w.rng.randrange(10, 60))
            except Violation as v:
                rep.violations.append({"key": "native/" + v.key, "detail": {"what": v.what, "threads": threads,
                                                                           "trace": w.trace[-30:]}})
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(1)

        if threads == 1:
            run(worlds[0])
        else:
            ts = [threading.Thread(target=run, args=(w,)) for w in worlds]
            [t.start() for t in ts]
            [t.join() for t in ts]
        rep.counts["histories"] = rep.counts.get("histories", 0) + 1
        if threads > 1:
            rep.counts["histories in three threads"] = rep.counts.get("histories in three threads", 0) + 1
        if n == 0:
            rep.samples.append(" ; ".join(worlds[0].trace[:14]))
        if n == 1 and lib.asan:
            try:
                leaks(lib, rng, d, rep)
            except Violation as v:
                rep.violations.append({"key": "native/" + v.key, "detail": {"what": v.what}})
        shutil.rmtree(d)
        n += 1
    rep.notes.append("under AddressSanitizer: " + str(lib.asan))
    with open(a.out, "w") as f:
        json.dump({"counts": rep.counts, "distinct": {k: sorted(v) for k, v in rep.distinct.items()},
                   "samples": rep.samples, "notes": rep.notes, "violations": rep.violations}, f)
    os._exit(0)


main()
