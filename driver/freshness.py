"""Tests what the job `fresh` has logged (C30): every value is new, and every bit of it varies on its own."""
import glob, hashlib, math
from collections import Counter, defaultdict

import refcrypto as rc, snapfile


def from_snapshot(path):
    """What was drawn to write a file: [(stream, value)]."""
    data = open(path, "rb").read()
    out = [("snapshot ephemeral key", data[7:39])]
    r = snapfile.Reader(snapfile.unseal(data[7:], bytes([5] * 32)))
    for _ in range(r.u64()):
        r.take(24)
        for _ in range(r.u64()):
            r.take(24)
            r.bytes()
        for _ in range(r.u64()):
            r.take(24)
            key = r.bytes()
            out.append(("vault key", key))
            for _ in range(r.u64()):
                _, i, d = r.take(24), r.take(24), r.bytes()
                out.append(("record nonce", d[16:40]))
                out.append(("blob identifier", snapfile.box(key, i, d)[40:64]))
                if r.flag():
                    out.append(("revocation nonce", r.bytes()[16:40]))
                out.append(("content nonce", r.bytes()[16:40]))
        for _ in range(r.u64()):
            r.bytes(), r.bytes()
            if r.flag():
                r.time()
        if r.flag():
            r.time()
        r.time()
        if r.flag():
            r.time()
    return out


def read(base):
    streams, texts = defaultdict(list), defaultdict(list)
    logs = [f for f in sorted(glob.glob(base + ".*")) if ".snapshot." not in f]
    for f in logs:
        for line in open(f):
            if not line.endswith("\n") or line.startswith("mnemonic "):
                continue
            name, v = line.rstrip("\n").rsplit(" ", 1)
            (texts if name.startswith("text:") else streams)[name].append(v if name.startswith("text:") else bytes.fromhex(v))
    return streams, texts, logs


def check_mnemonic(line):
    """`mnemonic <language> <passphrase> <words> <seed>`; returns (error or None, entropy or None)."""
    lang, p, m, seed = line.rstrip("\n").split(" ")[1:]
    m = bytes.fromhex(m).decode()
    e = rc.bip39_check(m, lang)
    if isinstance(e, str):
        return f"not a valid mnemonic: {e}: {m}", None
    if len(e) != 32:
        return f"{len(m.split())} words instead of 24", None
    if rc.bip39_seed(m, bytes.fromhex(p).decode()).hex() != seed:
        return f"the stored seed is not that of the mnemonic {m}", None
    return None, e


def mnemonics(logs):
    return [l for f in logs for l in open(f) if l.startswith("mnemonic ") and l.endswith("\n")]


# Bits that X25519 fixes: of secret keys those that are clamped, of public keys the highest.
FIXED = {"X25519 key": {0: 7, 31: 0xC0}, "snapshot ephemeral key": {31: 0x80}}


def columns(name, values):
    """Statistics of the values of one stream, all of one length: [(what, where, value)] of what is not random."""
    n, size = len(values), len(values[0])
    fixed = FIXED.get(name, {})
    data = b"".join(values)
    cols = [data[i::size] for i in range(size)]
    ints = [int.from_bytes(c, "big") for c in cols]
    bad = []
    many = lambda x, p: x > n * p + 10 * math.sqrt(n * p) + 12
    for i, c in enumerate(cols):
        hist = Counter(c)
        for bit in range(8):
            if fixed.get(i, 0) >> bit & 1:
                continue
            ones = sum(k for v, k in hist.items() if v >> bit & 1)
            if abs(ones - n / 2) > 7.5 * math.sqrt(n / 4):
                bad.append(("biased bit", f"bit {bit} of byte {i}", f"{ones} of {n} set"))
        if i not in fixed and n >= 2000:
            chi = sum((hist.get(v, 0) - n / 256) ** 2 for v in range(256)) / (n / 256)
            if chi > 540:
                bad.append(("biased byte", f"byte {i}", f"chi square {chi:.0f} with 255 degrees of freedom"))
    far = {1, 2, 4, 8, 12, 16, 24, 32, size // 2}
    for i in range(size):
        for j in range(i + 1, size):
            if i in fixed or j in fixed:
                continue
            x = (ints[i] ^ ints[j]).to_bytes(n, "big")
            top = max(Counter(x).values()) if j - i in far else x.count(0)
            if many(top, 1 / 256):
                bad.append(("dependent bytes", f"bytes {i} and {j}", f"{top} of {n} differ by the same"))
    for i in range(size):
        if i in fixed:
            continue
        d = bytes((b - a) & 255 for a, b in zip(cols[i], cols[i][1:]))
        top = max(Counter(d).values())
        if many(top, 1 / 256):
            bad.append(("dependent calls", f"byte {i}", f"{top} of {n} differ from the one before by the same"))
    return bad


def windows(streams):
    """Every aligned run of eight bytes of every value, of all streams together, must be new."""
    seen, bad, n = {}, [], 0
    for name, values in streams.items():
        for v in values:
            for i in range(0, len(v) - 7, 8):
                w = v[i:i + 8]
                n += 1
                if w in seen and len(bad) < 20:
                    bad.append(("repeated", f"bytes {i} to {i + 7} of a value of {name!r}",
                                f"{w.hex()} was bytes {seen[w][1]} and on of one of {seen[w][0]!r}"))
                seen.setdefault(w, (name, i))
    return bad, n


def text(name, values):
    n, bad = len(values), []
    for v, k in Counter(values).items():
        if k > 1:
            bad.append(("repeated", name, v))
    for i in range(len(values[0])):
        v, k = Counter(x[i] for x in values).most_common(1)[0]
        if k > n / 16 + 10 * math.sqrt(n / 16) + 12:
            bad.append(("biased character", f"{i} of {name}", f"{k} of {n} are {v!r}"))
    return bad


def column_job(a):
    return a[0], columns(*a)
