//! Random procedures with well-formed and hostile arguments.
use crate::util::*;
use iota_stronghold::procedures::*;
use iota_stronghold::*;
use std::num::NonZeroU32;

pub fn sha(rng: &mut Rng) -> Sha2Hash {
    match rng.below(3) {
        0 => Sha2Hash::Sha256,
        1 => Sha2Hash::Sha384,
        _ => Sha2Hash::Sha512,
    }
}

pub fn aead(rng: &mut Rng) -> AeadCipher {
    if rng.chance(1, 2) {
        AeadCipher::Aes256Gcm
    } else {
        AeadCipher::XChaCha20Poly1305
    }
}

pub fn kty(rng: &mut Rng) -> KeyType {
    if rng.chance(1, 2) {
        KeyType::Ed25519
    } else {
        KeyType::X25519
    }
}

/// Lengths around the block sizes of the algorithms.
pub fn len(rng: &mut Rng) -> usize {
    match rng.below(5) {
        0 => 0,
        1 => *rng.pick(&[1, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 63, 64, 65, 111, 112, 127, 128, 129, 130, 200]),
        2 => rng.range(1, 400),
        _ => rng.range(1, 64),
    }
}

pub fn blob(rng: &mut Rng) -> Vec<u8> {
    let n = if rng.chance(1, 30) { rng.range(400, 6000) } else { len(rng) };
    rng.bytes(n)
}

pub fn text(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "pässwörd ﬁ ½ Ⅸ".into(),
        2 => "パスワード㍿".into(),
        3 => "a".repeat(rng.range(1, 300)),
        _ => hex(&blob(rng)),
    }
}

pub fn chain(rng: &mut Rng, hostile: bool) -> Chain {
    let n = match rng.below(8) {
        0 => 0,
        1 if hostile => 300,
        _ => rng.range(1, 6),
    };
    let segs: Vec<u32> = (0..n)
        .map(|_| match rng.below(6) {
            0 => 0,
            1 => 0x7fff_ffff,
            2 => 44,
            _ => rng.u64() as u32 & 0x7fff_ffff,
        })
        .collect();
    if hostile && rng.chance(1, 4) {
        Chain::from_u32(segs)
    } else {
        Chain::from_u32_hardened(segs)
    }
}

pub const WORDS: &[&str] = &["abandon", "ability", "zoo", "legal", "winner", "thank", "year", "wave", "sausage", "worth", "title", "yellow", "notaword"];

pub fn mnemonic(rng: &mut Rng) -> String {
    match rng.below(6) {
        0 => String::new(),
        1 => "abandon ".repeat(11) + "about",
        2 => "あいこくしん　あおぞら　がぎぐげご".into(),
        _ => (0..rng.range(1, 24)).map(|_| *rng.pick(WORDS)).collect::<Vec<_>>().join(" "),
    }
}

/// Any procedure over the given source and target locations.
pub fn any(rng: &mut Rng, src: &dyn Fn(&mut Rng) -> Location, tgt: &dyn Fn(&mut Rng) -> Location, hostile: bool) -> StrongholdProcedure {
    let nonce = |rng: &mut Rng, c: AeadCipher| {
        let n = if hostile && rng.chance(1, 4) {
            len(rng)
        } else {
            match c {
                AeadCipher::Aes256Gcm => 12,
                AeadCipher::XChaCha20Poly1305 => 24,
            }
        };
        rng.bytes(n)
    };
    match rng.below(22) {
        0 => WriteVault { data: if hostile { blob(rng) } else { let n = len(rng).max(1); rng.bytes(n) }, location: tgt(rng) }.into(),
        1 => RevokeData { location: src(rng), should_gc: rng.chance(1, 2) }.into(),
        2 => GarbageCollect { vault_path: src(rng).vault_path().to_vec() }.into(),
        3 => CopyRecord { source: src(rng), target: tgt(rng) }.into(),
        4 => {
            let size_bytes = match rng.below(if hostile { 8 } else { 4 }) {
                0 => None,
                1 => Some(16),
                2 => Some(rng.range(1, 600)),
                3 => Some(32),
                4 => Some(0),
                5 => Some(usize::MAX - rng.below(64)),
                6 => Some(isize::MAX as usize - rng.below(64)),
                _ => Some(1 << 62),
            };
            Slip10Generate { size_bytes, output: tgt(rng) }.into()
        }
        5 | 6 => {
            let s = src(rng);
            let input = if rng.chance(1, 2) { Slip10DeriveInput::Key(s) } else { Slip10DeriveInput::Seed(s) };
            Slip10Derive { chain: chain(rng, hostile), input, output: tgt(rng) }.into()
        }
        7 => BIP39Generate {
            passphrase: if rng.chance(1, 2) { Some(text(rng)) } else { None },
            language: if rng.chance(1, 2) { MnemonicLanguage::English } else { MnemonicLanguage::Japanese },
            output: tgt(rng),
        }
        .into(),
        8 => BIP39Recover {
            passphrase: if rng.chance(1, 2) { Some(text(rng)) } else { None },
            mnemonic: mnemonic(rng),
            output: tgt(rng),
        }
        .into(),
        9 => PublicKey { ty: kty(rng), private_key: src(rng) }.into(),
        10 => GenerateKey { ty: kty(rng), output: tgt(rng) }.into(),
        11 => Ed25519Sign { msg: blob(rng), private_key: src(rng) }.into(),
        12 => {
            let public_key = match rng.below(6) {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => {
                    let mut p = [0; 32];
                    p[0] = 1;
                    p
                }
                _ => rng.array(),
            };
            X25519DiffieHellman { public_key, private_key: src(rng), shared_key: tgt(rng) }.into()
        }
        13 => Hmac { hash_type: sha(rng), msg: blob(rng), key: src(rng) }.into(),
        14 => Hkdf { hash_type: sha(rng), salt: blob(rng), label: blob(rng), ikm: src(rng), okm: tgt(rng) }.into(),
        15 => {
            let hash = sha(rng);
            let key_len = match rng.below(if hostile { 9 } else { 5 }) {
                0 => 32,
                1 => 64,
                2 => rng.range(1, 300),
                // the counter has more than one byte
                3 => if rng.chance(1, 3) { rng.range(8_000, 40_000) } else { rng.range(300, 3000) },
                4 => *rng.pick(&[1, 31, 33, 47, 48, 49, 63, 65, 96, 97]),
                5 => 0,
                6 => usize::MAX - rng.below(40),
                // more than there is memory, with counters below and above what it can count
                7 => (1 << 37) + rng.below(100),
                _ => (u32::MAX as usize + 1 + rng.below(5)) * 64,
            };
            ConcatKdf {
                hash,
                algorithm_id: text(rng),
                shared_secret: src(rng),
                key_len,
                apu: blob(rng),
                apv: blob(rng),
                pub_info: blob(rng),
                priv_info: blob(rng),
                output: tgt(rng),
            }
            .into()
        }
        16 => AesKeyWrapEncrypt { cipher: AesKeyWrapCipher::Aes256, encryption_key: src(rng), wrap_key: src(rng) }.into(),
        17 => AesKeyWrapDecrypt {
            cipher: AesKeyWrapCipher::Aes256,
            decryption_key: src(rng),
            wrapped_key: if rng.chance(1, 2) { rng.bytes(40) } else { blob(rng) },
            output: tgt(rng),
        }
        .into(),
        18 => Pbkdf2Hmac {
            hash_type: sha(rng),
            password: blob(rng),
            salt: blob(rng),
            count: NonZeroU32::new(rng.range(1, 40) as u32).unwrap(),
            output: tgt(rng),
        }
        .into(),
        19 => {
            let cipher = aead(rng);
            AeadEncrypt { cipher, associated_data: blob(rng), plaintext: blob(rng), nonce: nonce(rng, cipher), key: src(rng) }.into()
        }
        20 => {
            let cipher = aead(rng);
            let tl = if hostile { len(rng) } else { 16 };
            AeadDecrypt {
                cipher,
                associated_data: blob(rng),
                ciphertext: blob(rng),
                tag: rng.bytes(tl),
                nonce: nonce(rng, cipher),
                key: src(rng),
            }
            .into()
        }
        _ => ConcatSecret { location_a: src(rng), location_b: src(rng), output_location: tgt(rng) }.into(),
    }
}

/// Where a procedure puts a new secret.
pub fn target(p: &StrongholdProcedure) -> Option<Location> {
    use StrongholdProcedure as S;
    Some(match p {
        S::WriteVault(p) => p.location.clone(),
        S::CopyRecord(p) => p.target.clone(),
        S::Slip10Generate(p) => p.output.clone(),
        S::Slip10Derive(p) => p.output.clone(),
        S::BIP39Generate(p) => p.output.clone(),
        S::BIP39Recover(p) => p.output.clone(),
        S::GenerateKey(p) => p.output.clone(),
        S::X25519DiffieHellman(p) => p.shared_key.clone(),
        S::Hkdf(p) => p.okm.clone(),
        S::ConcatKdf(p) => p.output.clone(),
        S::AesKeyWrapDecrypt(p) => p.output.clone(),
        S::Pbkdf2Hmac(p) => p.output.clone(),
        S::ConcatSecret(p) => p.output_location.clone(),
        _ => return None,
    })
}

pub fn sources(p: &StrongholdProcedure) -> Vec<Location> {
    use StrongholdProcedure as S;
    match p {
        S::CopyRecord(p) => vec![p.source.clone()],
        S::Slip10Derive(p) => match &p.input {
            Slip10DeriveInput::Seed(l) | Slip10DeriveInput::Key(l) => vec![l.clone()],
        },
        S::PublicKey(p) => vec![p.private_key.clone()],
        S::Ed25519Sign(p) => vec![p.private_key.clone()],
        S::X25519DiffieHellman(p) => vec![p.private_key.clone()],
        S::Hmac(p) => vec![p.key.clone()],
        S::Hkdf(p) => vec![p.ikm.clone()],
        S::ConcatKdf(p) => vec![p.shared_secret.clone()],
        S::AesKeyWrapEncrypt(p) => vec![p.encryption_key.clone(), p.wrap_key.clone()],
        S::AesKeyWrapDecrypt(p) => vec![p.decryption_key.clone()],
        S::AeadEncrypt(p) => vec![p.key.clone()],
        S::AeadDecrypt(p) => vec![p.key.clone()],
        S::ConcatSecret(p) => vec![p.location_a.clone(), p.location_b.clone()],
        _ => vec![],
    }
}

/// Whether the result depends on fresh randomness.
pub fn random(p: &StrongholdProcedure) -> bool {
    use StrongholdProcedure as S;
    matches!(p, S::Slip10Generate(_) | S::BIP39Generate(_) | S::GenerateKey(_))
}

pub fn name(p: &StrongholdProcedure) -> &'static str {
    use StrongholdProcedure as S;
    match p {
        S::WriteVault(_) => "WriteVault",
        S::RevokeData(_) => "RevokeData",
        S::GarbageCollect(_) => "GarbageCollect",
        S::CopyRecord(_) => "CopyRecord",
        S::Slip10Generate(_) => "Slip10Generate",
        S::Slip10Derive(_) => "Slip10Derive",
        S::BIP39Generate(_) => "BIP39Generate",
        S::BIP39Recover(_) => "BIP39Recover",
        S::PublicKey(_) => "PublicKey",
        S::GenerateKey(_) => "GenerateKey",
        S::Ed25519Sign(_) => "Ed25519Sign",
        S::X25519DiffieHellman(_) => "X25519DiffieHellman",
        S::Hmac(_) => "Hmac",
        S::Hkdf(_) => "Hkdf",
        S::ConcatKdf(_) => "ConcatKdf",
        S::AesKeyWrapEncrypt(_) => "AesKeyWrapEncrypt",
        S::AesKeyWrapDecrypt(_) => "AesKeyWrapDecrypt",
        S::Pbkdf2Hmac(_) => "Pbkdf2Hmac",
        S::AeadEncrypt(_) => "AeadEncrypt",
        S::AeadDecrypt(_) => "AeadDecrypt",
        S::ConcatSecret(_) => "ConcatSecret",
        #[allow(unreachable_patterns)]
        _ => "other",
    }
}
