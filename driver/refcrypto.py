"""Plain reference implementations of the cryptography behind the procedures, written from the standards."""
import functools, hashlib, hmac as _hmac, os, struct, unicodedata

# ---------------------------------------------------------------------------------------------------- hashes, MACs

HASH = {"Sha256": "sha256", "Sha384": "sha384", "Sha512": "sha512"}
SIZE = {"Sha256": 32, "Sha384": 48, "Sha512": 64}


def hmac(h, key, msg):
    return _hmac.new(key, msg, HASH[h]).digest()


def hkdf(h, salt, ikm, info, n):
    """RFC 5869."""
    prk = hmac(h, salt if salt else bytes(SIZE[h]), ikm)
    okm, t, i = b"", b"", 1
    while len(okm) < n:
        t = hmac(h, prk, t + info + bytes([i]))
        okm += t
        i += 1
    return okm[:n]


def pbkdf2(h, password, salt, count, n):
    return hashlib.pbkdf2_hmac(HASH[h], password, salt, count, n)


def concat_kdf(h, z, alg, apu, apv, pub, priv, n):
    """NIST SP 800-56A rev. 1, 5.8.1, with 32-bit length prefixes for AlgorithmID, PartyUInfo and PartyVInfo."""
    pre = lambda b: struct.pack(">I", len(b)) + b
    other = pre(alg) + pre(apu) + pre(apv) + pub + priv
    out, i = b"", 1
    while len(out) < n:
        out += hashlib.new(HASH[h], struct.pack(">I", i) + z + other).digest()
        i += 1
    return out[:n]


# -------------------------------------------------------------------------------------------------------------- AES

def _xt(a):
    a <<= 1
    return (a ^ 0x11B) & 0xFF if a & 0x100 else a


def _gmul(a, b):
    r = 0
    while b:
        if b & 1:
            r ^= a
        a = _xt(a)
        b >>= 1
    return r


def _sbox():
    s = [0] * 256
    for x in range(256):
        inv = next((y for y in range(256) if _gmul(x, y) == 1), 0) if x else 0
        r = inv
        for k in range(1, 5):
            r ^= ((inv << k) | (inv >> (8 - k))) & 0xFF
        s[x] = r ^ 0x63
    return s


SBOX = _sbox()
INV = [0] * 256
for _i, _v in enumerate(SBOX):
    INV[_v] = _i
MUL = {k: [_gmul(x, k) for x in range(256)] for k in (2, 3, 9, 11, 13, 14)}


class AES256:
    def __init__(self, key):
        assert len(key) == 32
        w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
        rc = 1
        for i in range(8, 60):
            t = list(w[i - 1])
            if i % 8 == 0:
                t = t[1:] + t[:1]
                t = [SBOX[b] for b in t]
                t[0] ^= rc
                rc = _xt(rc)
            elif i % 8 == 4:
                t = [SBOX[b] for b in t]
            w.append([a ^ b for a, b in zip(w[i - 8], t)])
        self.rk = [sum(w[4 * r:4 * r + 4], []) for r in range(15)]

    def enc(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[0])]
        m2, m3 = MUL[2], MUL[3]
        for r in range(1, 15):
            s = [SBOX[b] for b in s]
            s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
            if r != 14:
                o = []
                for c in range(0, 16, 4):
                    a, b, d, e = s[c:c + 4]
                    o += [m2[a] ^ m3[b] ^ d ^ e, a ^ m2[b] ^ m3[d] ^ e, a ^ b ^ m2[d] ^ m3[e], m3[a] ^ b ^ d ^ m2[e]]
                s = o
            s = [a ^ b for a, b in zip(s, self.rk[r])]
        return bytes(s)

    def dec(self, block):
        s = [a ^ b for a, b in zip(block, self.rk[14])]
        m9, mb, md, me = MUL[9], MUL[11], MUL[13], MUL[14]
        for r in range(13, -1, -1):
            s = [s[(i - 4 * (i % 4)) % 16] for i in range(16)]
            s = [INV[b] for b in s]
            s = [a ^ b for a, b in zip(s, self.rk[r])]
            if r != 0:
                o = []
                for c in range(0, 16, 4):
                    a, b, d, e = s[c:c + 4]
                    o += [me[a] ^ mb[b] ^ md[d] ^ m9[e], m9[a] ^ me[b] ^ mb[d] ^ md[e],
                          md[a] ^ m9[b] ^ me[d] ^ mb[e], mb[a] ^ md[b] ^ m9[d] ^ me[e]]
                s = o
        return bytes(s)


def _ghash(h, data):
    h = int.from_bytes(h, "big")
    y = 0
    for i in range(0, len(data), 16):
        x = y ^ int.from_bytes(data[i:i + 16], "big")
        z, v = 0, h
        for k in range(127, -1, -1):
            if x >> k & 1:
                z ^= v
            v = (v >> 1) ^ (0xE1 << 120) if v & 1 else v >> 1
        y = z
    return y.to_bytes(16, "big")


def _pad16(b):
    return b + bytes(-len(b) % 16)


def _gcm(key, nonce, aad, text, decrypt):
    a = AES256(key)
    h = a.enc(bytes(16))
    out = bytearray()
    for i in range(0, len(text), 16):
        ks = a.enc(nonce + struct.pack(">I", 2 + i // 16))
        out += bytes(x ^ y for x, y in zip(text[i:i + 16], ks))
    ct = text if decrypt else bytes(out)
    s = _ghash(h, _pad16(aad) + _pad16(ct) + struct.pack(">QQ", 8 * len(aad), 8 * len(ct)))
    return bytes(out), bytes(x ^ y for x, y in zip(s, a.enc(nonce + b"\0\0\0\1")))


# --------------------------------------------------------------------------------------------------- ChaCha20-Poly1305

def _rounds(s):
    def q(a, b, c, d):
        s[a] = s[a] + s[b] & 0xFFFFFFFF; x = s[d] ^ s[a]; s[d] = (x << 16 | x >> 16) & 0xFFFFFFFF
        s[c] = s[c] + s[d] & 0xFFFFFFFF; x = s[b] ^ s[c]; s[b] = (x << 12 | x >> 20) & 0xFFFFFFFF
        s[a] = s[a] + s[b] & 0xFFFFFFFF; x = s[d] ^ s[a]; s[d] = (x << 8 | x >> 24) & 0xFFFFFFFF
        s[c] = s[c] + s[d] & 0xFFFFFFFF; x = s[b] ^ s[c]; s[b] = (x << 7 | x >> 25) & 0xFFFFFFFF
    for _ in range(10):
        q(0, 4, 8, 12); q(1, 5, 9, 13); q(2, 6, 10, 14); q(3, 7, 11, 15)
        q(0, 5, 10, 15); q(1, 6, 11, 12); q(2, 7, 8, 13); q(3, 4, 9, 14)


CONST = struct.unpack("<4I", b"expand 32-byte k")


def _block(key, ctr, nonce):
    s = list(CONST) + list(struct.unpack("<8I", key)) + [ctr] + list(struct.unpack("<3I", nonce))
    w = list(s)
    _rounds(w)
    return struct.pack("<16I", *[(a + b) & 0xFFFFFFFF for a, b in zip(s, w)])


def _hchacha(key, nonce16):
    w = list(CONST) + list(struct.unpack("<8I", key)) + list(struct.unpack("<4I", nonce16))
    _rounds(w)
    return struct.pack("<8I", *(w[:4] + w[12:]))


def _poly1305(key, msg):
    r = int.from_bytes(key[:16], "little") & 0x0FFFFFFC0FFFFFFC0FFFFFFC0FFFFFFF
    s = int.from_bytes(key[16:], "little")
    a = 0
    for i in range(0, len(msg), 16):
        a = (a + int.from_bytes(msg[i:i + 16] + b"\1", "little")) * r % ((1 << 130) - 5)
    return (a + s & (1 << 128) - 1).to_bytes(16, "little")


def _xchacha(key, nonce, aad, text, decrypt):
    key = _hchacha(key, nonce[:16])
    nonce = bytes(4) + nonce[16:]
    out = bytearray()
    for i in range(0, len(text), 64):
        out += bytes(x ^ y for x, y in zip(text[i:i + 64], _block(key, 1 + i // 64, nonce)))
    ct = text if decrypt else bytes(out)
    m = _pad16(aad) + _pad16(ct) + struct.pack("<QQ", len(aad), len(ct))
    return bytes(out), _poly1305(_block(key, 0, nonce)[:32], m)


NONCE = {"Aes256Gcm": 12, "XChaCha20Poly1305": 24}


def aead_encrypt(cipher, key, nonce, aad, text):
    """(ciphertext, tag), or None for invalid inputs."""
    if len(key) != 32 or len(nonce) != NONCE[cipher]:
        return None
    return (_gcm if cipher == "Aes256Gcm" else _xchacha)(key, nonce, aad, text, False)


def aead_decrypt(cipher, key, nonce, aad, ct, tag):
    """The plaintext, or None where it is to be rejected."""
    if len(key) != 32 or len(nonce) != NONCE[cipher]:
        return None
    p, t = (_gcm if cipher == "Aes256Gcm" else _xchacha)(key, nonce, aad, ct, True)
    return p if t == tag else None


# --------------------------------------------------------------------------------------------------------- key wrap

def kw_wrap(key, p):
    """RFC 3394."""
    if len(key) != 32 or len(p) % 8:
        return None
    a, n = 0xA6A6A6A6A6A6A6A6, len(p) // 8
    r = [p[8 * i:8 * i + 8] for i in range(n)]
    c = AES256(key)
    for j in range(6):
        for i in range(n):
            b = c.enc(a.to_bytes(8, "big") + r[i])
            a = int.from_bytes(b[:8], "big") ^ (n * j + i + 1)
            r[i] = b[8:]
    return a.to_bytes(8, "big") + b"".join(r)


def kw_unwrap(key, ct):
    if len(key) != 32 or len(ct) % 8 or len(ct) < 8:
        return None
    n = len(ct) // 8 - 1
    a = int.from_bytes(ct[:8], "big")
    r = [ct[8 + 8 * i:16 + 8 * i] for i in range(n)]
    c = AES256(key)
    for j in range(5, -1, -1):
        for i in range(n - 1, -1, -1):
            b = c.dec((a ^ (n * j + i + 1)).to_bytes(8, "big") + r[i])
            a = int.from_bytes(b[:8], "big")
            r[i] = b[8:]
    return b"".join(r) if a == 0xA6A6A6A6A6A6A6A6 else None


# ------------------------------------------------------------------------------------------------------- curve 25519

P = 2 ** 255 - 19
L = 2 ** 252 + 27742317777372353535851937790883648493
D = -121665 * pow(121666, P - 2, P) % P


def _add(p, q):
    a = (p[1] - p[0]) * (q[1] - q[0]) % P
    b = (p[1] + p[0]) * (q[1] + q[0]) % P
    c = 2 * p[3] * q[3] * D % P
    d = 2 * p[2] * q[2] % P
    e, f, g, h = b - a, d - c, d + c, b + a
    return e * f % P, g * h % P, f * g % P, e * h % P


def _mul(s, p):
    q = (0, 1, 1, 0)
    while s:
        if s & 1:
            q = _add(q, p)
        p = _add(p, p)
        s >>= 1
    return q


_BY = 4 * pow(5, P - 2, P) % P


def _recover_x(y, sign):
    x2 = (y * y - 1) * pow(D * y * y + 1, P - 2, P) % P
    x = pow(x2, (P + 3) // 8, P)
    if (x * x - x2) % P:
        x = x * pow(2, (P - 1) // 4, P) % P
    return P - x if x & 1 != sign else x


_BX = _recover_x(_BY, 0)
B = (_BX, _BY, 1, _BX * _BY % P)


def _comp(p):
    z = pow(p[2], P - 2, P)
    x, y = p[0] * z % P, p[1] * z % P
    return (y | (x & 1) << 255).to_bytes(32, "little")


def _ed_secret(seed):
    h = hashlib.sha512(seed).digest()
    return int.from_bytes(h[:32], "little") & (1 << 254) - 8 | 1 << 254, h[32:]


@functools.lru_cache(None)
def ed25519_public(seed):
    return _comp(_mul(_ed_secret(seed)[0], B))


def ed25519_sign(seed, msg):
    """RFC 8032."""
    a, prefix = _ed_secret(seed)
    pk = ed25519_public(seed)
    r = int.from_bytes(hashlib.sha512(prefix + msg).digest(), "little") % L
    R = _comp(_mul(r, B))
    k = int.from_bytes(hashlib.sha512(R + pk + msg).digest(), "little") % L
    return R + ((r + k * a) % L).to_bytes(32, "little")


def x25519(k, u):
    """RFC 7748."""
    k = int.from_bytes(k, "little") & ((1 << 254) - 8) | 1 << 254
    x1 = int.from_bytes(u, "little") & (1 << 255) - 1
    x2, z2, x3, z3, swap = 1, 0, x1, 1, 0
    for t in range(254, -1, -1):
        b = k >> t & 1
        if swap ^ b:
            x2, x3, z2, z3 = x3, x2, z3, z2
        swap = b
        a, bb = (x2 + z2) % P, (x2 - z2) % P
        aa, b2 = a * a % P, bb * bb % P
        e = (aa - b2) % P
        c, d = (x3 + z3) % P, (x3 - z3) % P
        da, cb = d * a % P, c * bb % P
        x3, z3 = (da + cb) ** 2 % P, x1 * (da - cb) ** 2 % P
        x2, z2 = aa * b2 % P, e * (aa + 121665 * e) % P
    if swap:
        x2, z2 = x3, z3
    return (x2 * pow(z2, P - 2, P) % P).to_bytes(32, "little")


BASE = (9).to_bytes(32, "little")

# -------------------------------------------------------------------------------------------------- SLIP-10, BIP-39


def slip10_master(seed):
    return hmac("Sha512", b"ed25519 seed", seed)


def slip10_derive(key, chain):
    """Only hardened segments are defined for ed25519; None for others."""
    for i in chain:
        if i < 1 << 31:
            return None
        key = hmac("Sha512", key[32:], b"\0" + key[:32] + struct.pack(">I", i))
    return key


def bip39_seed(mnemonic, passphrase):
    n = lambda s: unicodedata.normalize("NFKD", s).encode()
    return hashlib.pbkdf2_hmac("sha512", n(mnemonic), n("mnemonic" + passphrase), 2048, 64)


_DATA = os.path.join(os.path.dirname(os.path.abspath(__file__)), "data")
WORDS = {"English": open(_DATA + "/bip39.en.txt", encoding="utf8").read().split(),
         "Japanese": open(_DATA + "/bip39.jp.txt", encoding="utf8").read().split()}


def bip39_check(mnemonic, language):
    """An error text, or the entropy as bytes."""
    nf = lambda s: unicodedata.normalize("NFKD", s)
    idx = {nf(w): i for i, w in enumerate(WORDS[language])}
    ws = nf(mnemonic).split()
    if len(ws) not in (12, 15, 18, 21, 24):
        return f"{len(ws)} words"
    if any(w not in idx for w in ws):
        return "not a word of the list"
    bits = "".join(f"{idx[w]:011b}" for w in ws)
    ent = len(bits) * 32 // 33
    data = int(bits[:ent], 2).to_bytes(ent // 8, "big")
    if f"{int.from_bytes(hashlib.sha256(data).digest(), 'big'):0256b}"[:len(bits) - ent] != bits[ent:]:
        return "checksum"
    return data


# ---------------------------------------------------------------------------------------------------------- self test

def selftest():
    x = bytes.fromhex
    assert AES256(bytes(range(32))).enc(x("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
    assert AES256(bytes(range(32))).dec(x("8ea2b7ca516745bfeafc49904b496089")).hex() == "00112233445566778899aabbccddeeff"
    c, t = aead_encrypt("Aes256Gcm", bytes(32), bytes(12), b"", bytes(16))
    assert (c.hex(), t.hex()) == ("cea7403d4d606b6e074ec5d3baf39d18", "d0d1c8a799996bf0265b98b5d48ab919")
    c, t = aead_encrypt("XChaCha20Poly1305", bytes(range(0x80, 0xA0)), bytes(range(0x40, 0x58)), x("50515253c0c1c2c3c4c5c6c7"),
                        b"Ladies and Gentlemen of the class of '99: If I could offer you only one tip for the future, sunscreen would be it.")
    assert t.hex() == "c0875924c1c7987947deafd8780acf49" and c.hex().startswith("bd6d179d3e83d43b9576579493c0e939")
    assert kw_wrap(bytes(range(32)), x("00112233445566778899aabbccddeeff")).hex() == "64e8c3f9ce0f5ba263e9777905818a2a93c8191e7d6e8ae7"
    assert kw_unwrap(bytes(range(32)), x("64e8c3f9ce0f5ba263e9777905818a2a93c8191e7d6e8ae7")).hex() == "00112233445566778899aabbccddeeff"
    sk = x("4ccd089b28ff96da9db6c346ec114e0f5b8a319f35aba624da8cf6ed4fb8a6fb")
    assert ed25519_public(sk).hex() == "3d4017c3e843895a92b70aa74d1b7ebc9c982ccf2ec4968cc0cd55f12af4660c"
    assert ed25519_sign(sk, b"\x72").hex().startswith("92a009a9f0d4cab8720e820b5f642540a2b27b5416503f8fb3762223ebdb69da")
    assert x25519(x("a546e36bf0527c9d3b16154b82465edd62144c0ac1fc5a18506a2244ba449ac4"),
                  x("e6db6867583030db3594c1a424b15f7c726624ec26b3353b10a903a6d0ab1c4c")).hex() == \
        "c3da55379de9c6908e94ea4df28d084f32eccf03491c71f754b4075577a28552"
    m = slip10_derive(slip10_master(bytes(range(16))), [0x80000000])
    assert m.hex() == "68e0fe46dfb67e368c75379acec591dad19df3cde26e63b93a8e704f1dade7a3" \
                      "8b59aa11380b624e81507a27fedda59fea6d0b779a778918a2fd3590e16e9c69"
    assert bip39_seed("abandon " * 11 + "about", "TREZOR").hex().startswith("c55257c360c07c72029aebc1b53c05ed0362ada38ead3e3e9efa3708e534")
    assert hkdf("Sha256", bytes(range(13)), b"\x0b" * 22, x("f0f1f2f3f4f5f6f7f8f9"), 42).hex().startswith("3cb25f25faacd57a90434f64d0362f2a")
    # RFC 7518, appendix C: Z, A128GCM, Alice, Bob
    z = bytes([158, 86, 217, 29, 129, 113, 53, 211, 114, 131, 66, 131, 191, 132, 38, 156, 251, 49, 110, 163, 218, 128, 106,
               72, 246, 218, 167, 121, 140, 254, 144, 196])
    assert concat_kdf("Sha256", z, b"A128GCM", b"Alice", b"Bob", struct.pack(">I", 128), b"", 16) == \
        bytes([86, 170, 141, 234, 248, 35, 109, 32, 92, 34, 40, 205, 113, 167, 16, 26])
    assert bip39_check("abandon " * 11 + "about", "English") == bytes(16)


if __name__ == "__main__":
    selftest()
    print("ok")
