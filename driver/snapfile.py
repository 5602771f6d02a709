"""Reads snapshot files and exports independently of the code: format version 2.0 as the pinned version writes it."""
import hashlib, json, os, struct, sys
import refcrypto as rc

MAGIC, VERSION = b"PARTI", b"\x02\x00"


class Bad(Exception):
    pass


def lz4(data):
    out, p = bytearray(), 0
    while True:
        token = data[p]; p += 1
        n = token >> 4
        if n == 15:
            while True:
                b = data[p]; p += 1
                n += b
                if b != 255:
                    break
        if p + n > len(data):
            raise Bad("literals beyond the end")
        out += data[p:p + n]; p += n
        if p == len(data):
            return bytes(out)
        off = data[p] | data[p + 1] << 8; p += 2
        m = token & 15
        if m == 15:
            while True:
                b = data[p]; p += 1
                m += b
                if b != 255:
                    break
        m += 4
        if not 0 < off <= len(out):
            raise Bad("bad offset")
        if off >= m:
            s = len(out) - off
            out += out[s:s + m]
        else:
            u = bytes(out[-off:])
            out += (u * (m // off + 1))[:m]


def unseal(data, key):
    """`snapshot::write`: ephemeral public key, tag, ciphertext."""
    epk, tag, ct = data[:32], data[32:48], data[48:]
    pk = rc.x25519(key, rc.BASE)
    nonce = hashlib.blake2b(epk + pk, digest_size=32).digest()[:24]
    pt = rc.aead_decrypt("XChaCha20Poly1305", rc.x25519(key, epk), nonce, b"", ct, tag)
    if pt is None:
        raise Bad("does not decrypt")
    return lz4(pt)


class Reader:
    def __init__(self, b):
        self.b, self.p = b, 0

    def take(self, n):
        if self.p + n > len(self.b):
            raise Bad("too short")
        self.p += n
        return self.b[self.p - n:self.p]

    def u64(self):
        return struct.unpack("<Q", self.take(8))[0]

    def bytes(self):
        return self.take(self.u64())

    def flag(self):
        f = self.take(1)[0]
        if f > 1:
            raise Bad("bad option")
        return f

    def time(self):
        s, n = struct.unpack("<QI", self.take(12))
        if n >= 10**9:
            raise Bad("bad time")
        return s + n / 1e9


def box(key, ad, b):
    pt = rc.aead_decrypt("XChaCha20Poly1305", key, b[16:40], ad, b[40:], b[:16])
    if pt is None:
        raise Bad("a sealed piece does not open")
    return pt


def record(key, cid, rid, data, revoke, blob):
    if rid != cid:
        raise Bad("record under another identifier")
    t = box(key, rid, data)
    if len(t) != 112 or t[:8] != struct.pack(">Q", 1) or t[16:40] != rid or any(t[88:]):
        raise Bad("not a data transaction")
    v = box(key, t[40:64], blob)
    if struct.unpack(">Q", t[8:16])[0] != len(v):
        raise Bad("another length")
    if revoke is None:
        return v
    if box(key, rid, revoke) != (struct.pack(">Q", 2) + rid).ljust(112, b"\0"):
        raise Bad("not a revocation transaction")
    return None


def state(b):
    """{client id: (records {(vault id, record id): content or None}, store {key: (value, end or None)}, created)}"""
    r, out = Reader(b), {}
    for _ in range(r.u64()):
        cid = r.take(24)
        keys = {r.take(24): r.bytes() for _ in range(r.u64())}
        recs = {}
        for _ in range(r.u64()):
            vid = r.take(24)
            key = r.bytes()
            if keys.get(vid) != key or len(key) != 32:
                raise Bad("vault with another key than in the key store")
            for _ in range(r.u64()):
                k, i = r.take(24), r.take(24)
                data = r.bytes()
                revoke = r.bytes() if r.flag() else None
                recs[(vid, k)] = record(key, k, i, data, revoke, r.bytes())
        store = {}
        for _ in range(r.u64()):
            k, v = r.bytes(), r.bytes()
            store[k] = (v, r.time() if r.flag() else None)
        if r.flag():
            r.time()
        created = r.time()
        if r.flag():
            r.time()
        if cid in out:
            raise Bad("a client twice")
        out[cid] = (recs, store, created)
    if r.p != len(b):
        raise Bad(f"{len(b) - r.p} bytes after the end")
    return out


def check_file(arg):
    """Compares a file with its entry in the index; returns (file, error or None, records)."""
    d, e = arg
    un = bytes.fromhex
    try:
        data = open(os.path.join(d, e["file"]), "rb").read()
        if e["kind"] == "snapshot":
            if data[:7] != MAGIC + VERSION:
                raise Bad(f"header {data[:7].hex()}")
            st = state(unseal(data[7:], un(e["key"])))
        else:
            st = state(unseal(data, rc.x25519(un(e["secret"]), un(e["public"]))))
        if set(st) != {un(c["id"]) for c in e["clients"].values()}:
            raise Bad(f"{len(st)} clients, expected {len(e['clients'])}")
        n = 0
        for c in e["clients"].values():
            recs, store, created = st[un(c["id"])]
            want = {(un(r[2]), un(r[3])): None if r[4] is None else un(r[4]) for r in c["records"]}
            if recs != want:
                raise Bad(f"records: {len(recs)}, expected {len(want)}, or other contents")
            for k, v, life in c["store"]:
                have = store.get(un(k))
                if life == 0 and have is None:
                    continue
                if have is None or have[0] != un(v):
                    raise Bad("store entry missing or with another value")
                if (have[1] is None) != (life is None) or (life and not -2 < have[1] - created - life < 600):
                    raise Bad(f"store entry ends at {have[1]}, expected {life} s after about {created}")
            if set(store) - {un(x[0]) for x in c["store"]}:
                raise Bad("store entries too many")
            n += len(recs)
        return e["file"], None, n
    except (Bad, IndexError, struct.error) as x:
        return e["file"], f"{type(x).__name__}: {x}", 0


def entries(d):
    out = []
    for f in sorted(os.listdir(d)):
        if f.startswith("index") and f.endswith(".json"):
            out += json.load(open(os.path.join(d, f)))
    return [(d, e) for e in out]


if __name__ == "__main__":
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8) as ex:
        for r in ex.map(check_file, entries(sys.argv[1])):
            if r[1]:
                print(r)
        print("done")
