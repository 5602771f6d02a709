"""Offline oracle over the log of executed procedures (C09, C30)."""
import hashlib, hmac, json
import refcrypto as rc

ANY = object()


def expect(name, d, src, contents, tgt):
    """What the standard defines: None for an error, or (output, secret); ANY where nothing is defined."""
    by = lambda k: bytes(d[k])
    if name == "WriteVault":
        return b"", by("data")
    if name == "CopyRecord":
        return b"", src[0]
    if name == "ConcatSecret":
        return b"", src[0] + src[1]
    if name == "Slip10Generate":
        n = d["size_bytes"] if d["size_bytes"] is not None else 64
        v = contents.get(tgt)
        return b"", v if v is not None and len(v) == n else f"{n} random bytes"
    if name == "GenerateKey":
        v = contents.get(tgt)
        return b"", v if v is not None and len(v) == 32 else "32 random bytes"
    if name == "Slip10Derive":
        chain = [int.from_bytes(bytes(s["bs"]), "big") for s in d["chain"]]
        if "Key" in d["input"]:
            k = src[0] if len(src[0]) == 64 else None
        else:
            k = rc.slip10_master(src[0])
        k = k and rc.slip10_derive(k, chain)
        return k and (k[32:], k)
    if name == "BIP39Recover":
        return b"", rc.bip39_seed(d["mnemonic"], d["passphrase"] or "")
    if name == "PublicKey":
        if d["ty"] == "Ed25519":
            return (rc.ed25519_public(src[0][:32]), None) if len(src[0]) >= 32 else None
        return (rc.x25519(src[0], rc.BASE), None) if len(src[0]) == 32 else None
    if name == "Ed25519Sign":
        return (rc.ed25519_sign(src[0][:32], by("msg")), None) if len(src[0]) >= 32 else None
    if name == "X25519DiffieHellman":
        if len(src[0]) != 32:
            return None
        z = rc.x25519(src[0], by("public_key"))
        return (b"", z)
    if name == "Hmac":
        return rc.hmac(d["hash_type"], src[0], by("msg")), None
    if name == "Hkdf":
        return b"", rc.hkdf(d["hash_type"], by("salt"), src[0], by("label"), rc.SIZE[d["hash_type"]])
    if name == "Pbkdf2Hmac":
        return b"", rc.pbkdf2(d["hash_type"], by("password"), by("salt"), d["count"], rc.SIZE[d["hash_type"]])
    if name == "ConcatKdf":
        return b"", rc.concat_kdf(d["hash"], src[0], d["algorithm_id"].encode(), by("apu"), by("apv"), by("pub_info"),
                                  by("priv_info"), d["key_len"])
    if name == "AesKeyWrapEncrypt":
        c = rc.kw_wrap(src[0], src[1])
        return c and (c, None)
    if name == "AesKeyWrapDecrypt":
        p = rc.kw_unwrap(src[0], by("wrapped_key"))
        return None if p is None else (b"", p)
    if name == "AeadEncrypt":
        r = rc.aead_encrypt(d["cipher"], src[0], by("nonce"), by("associated_data"), by("plaintext"))
        return r and (r[1] + r[0], None)
    if name == "AeadDecrypt":
        p = rc.aead_decrypt(d["cipher"], src[0], by("nonce"), by("associated_data"), by("ciphertext"), by("tag"))
        return None if p is None else (p, None)
    return ANY


def lax(name, d, src):
    """Whether an error is acceptable too: inputs the standard leaves to the implementation."""
    if name in ("AesKeyWrapEncrypt", "AesKeyWrapDecrypt"):
        return len(src[1] if name.endswith("Encrypt") else d["wrapped_key"][8:]) < 16
    if name == "X25519DiffieHellman":
        return len(src[0]) == 32 and not any(rc.x25519(src[0], bytes(d["public_key"])))
    return False


def check_case(line):
    """Returns (violations, counts, distinct keys, a sample)."""
    c = json.loads(line)
    un = bytes.fromhex
    contents = {k: un(v) for k, v in c["contents"].items()}
    init = {k: un(v) for k, v in c["init"].items()}
    bad, counts, keys, sample = [], {}, [], None
    count = lambda k: counts.__setitem__(k, counts.get(k, 0) + 1)
    for k, v in init.items():
        if contents.get(k) != v:
            bad.append(("procedures/source-changed", {"case": c["case"], "location": k}))
    for e in c["events"]:
        name = e["name"]
        d = e["proc"][name]
        where = {"case": c["case"], "procedure": e["proc"], "error": e["err"],
                 "sources": [(contents.get(s) or b"").hex() for s in e["src"]]}
        src = [contents.get(s) for s in e["src"]]
        if any(s is None for s in src):
            bad.append(("procedures/lost-source", where))
            continue
        if name == "BIP39Generate":
            if not e["ok"]:
                bad.append(("procedures/refused:" + name, where))
                continue
            m = un(e["out"]).decode("utf8", "replace")
            r = rc.bip39_check(m, d["language"])
            if isinstance(r, str) or len(r) != 32:
                bad.append(("procedures/mnemonic", dict(where, what=r if isinstance(r, str) else "not 24 words")))
            want = (un(e["out"]), rc.bip39_seed(m, d["passphrase"] or ""))
        else:
            want = expect(name, d, src, contents, e["tgt"])
        if want is ANY:
            continue
        count(f"compared:{name}:{'result' if want else 'rejection'}")
        keys.append(hash((name, str(e["proc"]), tuple(src))))
        if want is None:
            if e["ok"]:
                bad.append(("procedures/accepted:" + name, dict(where, output=e["out"])))
            elif e["tgt"] and contents.get(e["tgt"]) is not None:
                bad.append(("procedures/left:" + name, where))
            continue
        if not e["ok"]:
            if not lax(name, d, src):
                bad.append(("procedures/refused:" + name, where))
            continue
        out, secret = want
        if un(e["out"]) != out:
            bad.append(("procedures/output:" + name, dict(where, output=e["out"], expected=out.hex())))
        if e["tgt"]:
            got = contents.get(e["tgt"])
            if got != secret:
                bad.append(("procedures/secret:" + name, dict(where, found=got and got.hex(),
                                                              expected=secret if isinstance(secret, str) else secret.hex())))
            if secret and len(secret) >= 16 and name not in ("Slip10Derive",) and secret in un(e["out"]):
                bad.append(("procedures/secret-in-output:" + name, where))
        if sample is None and name not in ("WriteVault", "CopyRecord"):
            sample = {"procedure": e["proc"], "sources": [s.hex() for s in src], "output": e["out"],
                      "secret": e["tgt"] and contents[e["tgt"]].hex()}
    return bad, counts, keys, sample


# ------------------------------------------------------------------------------------------- keys from passphrases

def passphrase_keys(argon2, lines):
    """Compares the keys in a log of the job `passphrases` with those the named functions define; `argon2` is the
    compiled argon2i.c. Returns (violations, counts)."""
    import subprocess
    bad, counts, slow = [], {}, []
    for line in lines:
        method, p, salt, pre, key = line.split()
        p, salt, pre = (bytes.fromhex(x[:-1]) for x in (p, salt, pre))
        if method == "truncated":
            want = p[:32].ljust(32, b"\0")
        elif method == "blake2b":
            want = hashlib.blake2b(p, digest_size=32).digest()
        elif method == "blake2b256":
            want = hashlib.blake2b(pre + p, digest_size=32).digest()
        elif method == "sha256":
            want = hashlib.sha256(pre + p).digest()
        elif method == "raw":
            want = p
        else:
            slow.append((p, salt, key))
            continue
        counts["keys " + method] = counts.get("keys " + method, 0) + 1
        if want.hex() != key:
            bad.append(("keys/wrong", {"method": method, "passphrase": p.hex(), "pre": pre.hex(), "key": key, "expected": want.hex()}))
    known = (b"password", b"somesalt", None)
    out = subprocess.run([argon2], input="".join(f"{p.hex()}. {s.hex()}.\n" for p, s, _ in [known] + slow), text=True,
                         stdout=subprocess.PIPE, check=True).stdout.split()
    assert len(out) == len(slow) + 1
    for (p, s, key), want in zip(slow, out[1:]):
        counts["keys argon2"] = counts.get("keys argon2", 0) + 1
        if want != key:
            bad.append(("keys/wrong", {"method": "argon2", "passphrase": p.hex(), "salt": s.hex(), "key": key, "expected": want}))
    return bad, counts


# ------------------------------------------------------------------------------------------------ identifiers

def mac(msg, key):
    return hmac.new(key, msg, hashlib.sha512).digest()[:24].hex()


def identifiers(lines):
    """Checks the identifiers in a log of the job `paths` against their definition. Returns (violations, count)."""
    bad, n = [], 0
    for line in lines:
        f = line.split()
        unhex = lambda s: bytes.fromhex(s[:-1])
        v = unhex(f[1])
        vid = mac(v, v)
        n += 1
        if f[0] == "p":
            if f[2] != vid:
                bad.append(("ids/client", {"path": v.hex(), "id": f[2], "expected": vid}))
            continue
        if f[0] == "g":
            rid = mac(bytes.fromhex(vid), unhex(f[2]))
        else:
            text = (str(list(v)) + ("first_record" if f[2] == "0" else f[2])).encode()
            rid = mac(text, text)
        if (f[3], f[4]) != (vid, rid):
            bad.append(("ids/location", {"location": f[:3], "ids": f[3:], "expected": [vid, rid]}))
    return bad, n
