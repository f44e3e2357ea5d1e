use crate::lite::call_links::CallLinkResponse;
use crate::lite::call_links::base16::*;
use crate::lite::call_links::root_key::*;
use crate::support::*;
use aes_gcm_siv::{Aes256GcmSiv, KeyInit, aead::Aead};
use hkdf::Hkdf;
use sha2::Sha256;
use std::collections::HashMap;

const LETTERS: &[u8; 16] = b"bcdfghkmnpqrstxz";

// the description: two letters a byte, a dash before the first byte that does not fit its group
fn text(v: &[u8], sizes: &[usize]) -> Option<String> {
    let mut s = String::new();
    let mut g = 0;
    let mut left = *sizes.first()?;
    for b in v {
        while left == 0 {
            g += 1;
            left = *sizes.get(g)?;
            s.push('-');
        }
        left -= 1;
        s.push(LETTERS[(b >> 4) as usize] as char);
        s.push(LETTERS[(b & 15) as usize] as char);
    }
    Some(s)
}

fn letters_to_bytes(s: &str) -> Option<Vec<u8>> {
    let l: Vec<u8> = s.bytes().filter(|c| *c != b'-').collect();
    if l.len() % 2 != 0 {
        return None;
    }
    l.chunks(2)
        .map(|p| {
            let a = LETTERS.iter().position(|x| *x == p[0])?;
            let b = LETTERS.iter().position(|x| *x == p[1])?;
            Some((a * 16 + b) as u8)
        })
        .collect()
}

fn decode(s: &str, sizes: &[usize]) -> Option<Vec<u8>> {
    let v = letters_to_bytes(s)?;
    (text(&v, sizes).as_deref() == Some(s)).then_some(v)
}

fn mutate(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..1 + rng.below(2) {
        let at = rng.below(c.len() as u64 + 1) as usize;
        let odd = ['-', 'b', 'z', 'a', 'B', 'Z', 'é', '\u{1F511}', ' ', '0', '\u{7f}', '\0', 'e', 'i', 'u', 'y', '\u{80}', '\u{ff}', '\u{ff0d}'];
        let any = rng.below(128) as u8 as char;
        match rng.below(9) {
            7 => c.insert(at, any),
            8 if at < c.len() => c[at] = any,
            0 if at < c.len() => {
                c.remove(at);
            }
            1 => c.insert(at, *rng.pick(&odd)),
            2 if at < c.len() => c[at] = *rng.pick(&odd),
            3 => c.truncate(at),
            4 => c.push(*rng.pick(&odd)),
            5 => {
                let t: Vec<char> = c[at..].to_vec();
                c.extend(t);
            }
            _ => c.push('-'),
        }
    }
    c.into_iter().collect()
}

fn bytes_like(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(4) {
        0 => (0..n).map(|_| *rng.pick(&[0u8, 0x11, 0xff, 0x80, 0x01, 0x81, 0x10, 0x22])).collect(),
        _ => rng.bytes(n),
    }
}

pub fn k01(run: &mut Run) {
    let mut rng = run.rng(1);
    run.suite("every byte");
    for b in 0..=255u8 {
        for p in [1usize, 2, usize::MAX] {
            let v = [b, !b, b.rotate_left(4)];
            run.case(
                || format!("{v:?} groups of {p}"),
                || {
                    let s = if p == usize::MAX {
                        format!("{:-^}", ConsonantBase16::from(&v[..]))
                    } else {
                        format!("{:-^.*}", p, ConsonantBase16::from(&v[..]))
                    };
                    same("printed", Some(s.clone()), text(&v, &[p; 3]))?;
                    same("read back", ConsonantBase16::parse_with_separators(&s, [p; 3]).ok(), Some(v.to_vec()))?;
                    Ok(true)
                },
            );
        }
    }
    run.suite("print and read back");
    for _ in 0..run.quick_or(20_000, 2_000_000) {
        let n = rng.below(40) as usize;
        let v = bytes_like(&mut rng, n);
        let p = match rng.below(5) {
            0 => usize::MAX,
            _ => 1 + rng.below(9) as usize,
        };
        run.case(
            || format!("{v:?} groups of {p}"),
            || {
                let want = text(&v, &vec![p; n.max(1)]).ok_or("oracle")?;
                let s = if p == usize::MAX {
                    format!("{:-^}", ConsonantBase16::from(&v[..]))
                } else {
                    format!("{:-^.*}", p, ConsonantBase16::from(&v[..]))
                };
                same("printed", &s, &want)?;
                same("read back", ConsonantBase16::parse_with_separators(&s, std::iter::repeat(p)).ok(), Some(v.clone()))?;
                if p == usize::MAX {
                    same("parse", ConsonantBase16::parse(&s).ok(), Some(v.clone()))?;
                }
                Ok(true)
            },
        );
    }
    run.suite("read exactly the texts of the group sizes");
    for _ in 0..run.quick_or(60_000, 6_000_000) {
        let k = 1 + rng.below(5) as usize;
        let sizes: Vec<usize> = (0..k).map(|_| rng.below(5) as usize).collect();
        let total: usize = sizes.iter().sum();
        let n = rng.below(total as u64 + 2) as usize;
        let v = bytes_like(&mut rng, n);
        let printed = match rng.below(3) {
            0 => text(&v, &vec![1 + rng.below(4) as usize; n.max(1)]),
            _ => text(&v, &sizes),
        };
        let mut s = printed.unwrap_or_else(|| "bb-bb".into());
        if rng.chance(2, 3) {
            s = mutate(&mut rng, &s);
        }
        run.case(
            || format!("{s:?} as groups of {sizes:?}"),
            || {
                let got = ConsonantBase16::parse_with_separators(&s, sizes.iter().copied()).ok();
                same("decoded", got, decode(&s, &sizes))?;
                same("decoded without groups", ConsonantBase16::parse(&s).ok(), decode(&s, &[usize::MAX]))?;
                Ok(true)
            },
        );
    }
}

fn repeated(b: &[u8]) -> bool {
    b.chunks_exact(2).any(|p| p[0] == p[1] && p[0] >> 4 == p[0] & 15)
}

fn acceptable(b: &[u8]) -> bool {
    match b.len() {
        16 => !repeated(b),
        21 => !repeated(&b[..16]) && (b[16] == 1 || b[16] == 0x81),
        _ => false,
    }
}

fn key_text(b: &[u8]) -> String {
    if b.len() == 16 { text(b, &[2; 8]).unwrap() } else { text(b, &[4, 4, 4, 4, 1, 4]).unwrap() }
}

fn key_bytes(rng: &mut Rng) -> Vec<u8> {
    let mut b = rng.bytes(16);
    while repeated(&b) {
        b = rng.bytes(16);
    }
    if rng.chance(2, 3) {
        b.push(*rng.pick(&[1u8, 0x81]));
        b.extend((rng.edgy() as u32).to_be_bytes());
    }
    b
}

fn kdf(b: &[u8], info: &[u8]) -> Vec<u8> {
    let mut out = [0u8; 32];
    Hkdf::<Sha256>::new(None, b).expand(info, &mut out).unwrap();
    out.to_vec()
}

fn version(k: &CallLinkRootKey) -> u8 {
    match k {
        CallLinkRootKey::V0(_) => 0,
        CallLinkRootKey::V1(_) => 1,
    }
}

fn check_key(k: &CallLinkRootKey, b: &[u8]) -> Result<(), String> {
    same("bytes", k.as_slice(), b)?;
    same("version", version(k) as usize, (b.len() == 21) as usize)?;
    same("text", k.to_formatted_string(), key_text(b))?;
    same("valid", k.is_valid(), b.len() == 16 || b[16] < 128)?;
    same("room id", k.derive_room_id(), kdf(&b[..16], b"20230501-Signal-CallLinkRootKey-RoomId"))?;
    let mut h = HashMap::from([("Other".to_string(), "x".to_string())]);
    k.prepare_http_headers(&mut h);
    let mut want = HashMap::from([("Other".to_string(), "x".to_string())]);
    want.insert("X-Room-Id".into(), hex::encode(k.derive_room_id()));
    if b.len() == 21 && b[16] < 128 {
        want.insert("X-Epoch".into(), u32::from_be_bytes(b[17..21].try_into().unwrap()).to_string());
    }
    same("headers", h, want)
}

fn check_response(k: &CallLinkRootKey, b: &[u8], epoch: Option<u32>) -> Result<(), String> {
    let r = k.process_server_response(&CallLinkResponse { epoch }).map_err(|e| format!("{e:?}"))?;
    let want = if b.len() == 16 || b[16] < 128 {
        None
    } else {
        let mut w = b[..16].to_vec();
        if let Some(e) = epoch {
            w.push(1);
            w.extend(e.to_be_bytes());
        }
        Some(w)
    };
    match (r, want) {
        (None, None) => Ok(()),
        (Some(k), Some(w)) => check_key(&k, &w),
        (r, w) => Err(format!("response: got {:?}, contract says {w:?}", r.map(|k| k.as_slice().to_vec()))),
    }
}

struct Fixed(Vec<u8>, usize);
impl rand::CryptoRng for Fixed {}
impl rand::RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

pub fn k02(run: &mut Run) {
    let mut rng = run.rng(2);
    run.suite("bytes");
    for i in 0..run.quick_or(40_000, 2_000_000) {
        let b = match rng.below(6) {
            0 => {
                let n = rng.below(30) as usize;
                rng.bytes(n)
            }
            1 => {
                let mut b = key_bytes(&mut rng);
                let at = 2 * rng.below(8) as usize;
                b[at] = (rng.below(16) * 17) as u8;
                b[at + 1] = if rng.chance(3, 4) { b[at] } else { rng.u64() as u8 };
                b
            }
            2 => {
                // equal neighbours that are not a pair
                let mut b = key_bytes(&mut rng);
                let at = 1 + 2 * rng.below(7) as usize;
                b[at] = (rng.below(16) * 17) as u8;
                b[at + 1] = b[at];
                b
            }
            3 => {
                let mut b = key_bytes(&mut rng);
                b.resize(21, 0);
                b[16] = if i < 600 { i as u8 } else { rng.u64() as u8 };
                b[17..].copy_from_slice(&(rng.edgy() as u32).to_be_bytes());
                b
            }
            _ => key_bytes(&mut rng),
        };
        let epoch = if rng.chance(1, 3) { None } else { Some(rng.edgy() as u32) };
        run.case(
            || format!("key bytes {b:?}, response epoch {epoch:?}"),
            || {
                let k = CallLinkRootKey::try_from(&b[..]);
                same("accepted", k.is_ok(), acceptable(&b))?;
                if let Ok(k) = k {
                    check_key(&k, &b)?;
                    let s = k.to_formatted_string();
                    let t = CallLinkRootKey::try_from(s.as_str()).map_err(|_| "its own text is refused")?;
                    same("bytes from text", t.as_slice(), &b[..])?;
                    check_response(&k, &b, epoch)?;
                    return Ok(true);
                }
                Ok(false)
            },
        );
    }
    run.suite("text");
    for _ in 0..run.quick_or(40_000, 2_000_000) {
        let mut b = key_bytes(&mut rng);
        if rng.chance(1, 4) {
            let at = rng.below(b.len() as u64) as usize;
            b[at] = 0x11 * (rng.below(16) as u8);
            if at + 1 < b.len() {
                b[at + 1] = b[at];
            }
        }
        let mut s = key_text(&b);
        if rng.chance(2, 3) {
            s = mutate(&mut rng, &s);
        } else if rng.chance(1, 3) {
            s = text(&b, &[[4usize; 8], [2; 8], [1; 8], [8; 8]][rng.below(4) as usize]).unwrap_or(s);
        }
        run.case(
            || format!("key text {s:?}"),
            || {
                let k = CallLinkRootKey::try_from(s.as_str());
                let want = letters_to_bytes(&s).filter(|b| acceptable(b) && key_text(b) == s);
                same("key", k.as_ref().ok().map(|k| k.as_slice().to_vec()), want.clone())?;
                if let (Ok(k), Some(b)) = (k, want) {
                    check_key(&k, &b)?;
                    return Ok(true);
                }
                Ok(false)
            },
        );
    }
    run.suite("generated");
    for _ in 0..run.quick_or(3_000, 100_000) {
        let mut stream = rng.bytes(16 * 6 + 7);
        for j in 0..rng.below(3) as usize {
            // up to three draws with a repeated chunk
            let at = 16 * j + 2 * rng.below(8) as usize;
            stream[at] = (rng.below(16) * 17) as u8;
            stream[at + 1] = stream[at];
        }
        let pass = rng.bytes(16);
        run.case(
            || format!("generator output {stream:?}"),
            || {
                let want = stream.chunks_exact(16).find(|b| !repeated(b));
                let Some(want) = want else { return Ok(false) };
                let k = CallLinkRootKey::generate(Fixed(stream.clone(), 0));
                let mut w = want.to_vec();
                w.extend([0x81, 0, 0, 0, 0]);
                check_key(&k, &w)?;
                same("admin passkey", CallLinkRootKey::generate_admin_passkey(Fixed(pass.clone(), 0)), pass.clone())?;
                Ok(true)
            },
        );
    }
}

fn padded(m: &[u8]) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(0x80);
    while (p.len() + 12) % 32 != 0 {
        p.push(0);
    }
    p
}

pub fn k03(run: &mut Run) {
    let mut rng = run.rng(3);
    run.suite("names");
    for i in 0..run.quick_or(6_000, 300_000) {
        let b = key_bytes(&mut rng);
        let n = if i < 300 { i as usize } else { rng.below(200) as usize };
        let mut m = bytes_like(&mut rng, n);
        if rng.chance(1, 3) && n > 0 {
            let at = rng.below(n as u64) as usize;
            m[at] = 0x80;
            for x in &mut m[at + 1..] {
                *x = 0;
            }
        }
        let nonce = rng.bytes(12);
        let flip = rng.below(8 * 2000) as usize;
        let short = rng.below(200) as usize;
        let tail = bytes_like(&mut rng, n);
        run.case(
            || format!("key {b:?} name {m:?} nonce {nonce:?} flipped bit {flip} cut {short} other {tail:?}"),
            || {
                let k = CallLinkRootKey::try_from(&b[..]).map_err(|_| "key refused")?;
                let info: &[u8] = if b.len() == 16 {
                    b"20230501-Signal-CallLinkRootKey-AES"
                } else {
                    b"20251219-Signal-CallLinkRootKey-AES"
                };
                let cipher = Aes256GcmSiv::new_from_slice(&kdf(&b[..16], info)).unwrap();
                let c = k.encrypt(&m, Fixed(nonce.clone(), 0));
                let mut want = nonce.clone();
                want.extend(cipher.encrypt(nonce.as_slice().into(), padded(&m).as_slice()).unwrap());
                same("box", &c, &want)?;
                same("opened", k.decrypt(&c).ok(), Some(m.clone()))?;
                // the same key with another epoch opens it too
                if b.len() == 21 {
                    let mut b2 = b.clone();
                    b2[16] ^= 0x80;
                    b2[20] ^= 0x55;
                    let k2 = CallLinkRootKey::try_from(&b2[..]).map_err(|_| "key refused")?;
                    same("opened under another epoch", k2.decrypt(&c).ok(), Some(m.clone()))?;
                }
                let mut bad = c.clone();
                let at = flip % (8 * bad.len());
                bad[at / 8] ^= 1 << (at % 8);
                same("altered box", k.decrypt(&bad).ok(), None)?;
                let cut = short % c.len();
                same("shortened box", k.decrypt(&c[..cut]).ok(), None)?;
                // whatever someone with the key sealed: up to the last marker
                let mut by_hand = nonce.clone();
                by_hand.extend(cipher.encrypt(nonce.as_slice().into(), tail.as_slice()).unwrap());
                let want = tail.iter().rposition(|x| *x == 0x80).map(|p| tail[..p].to_vec());
                same("sealed by hand", k.decrypt(&by_hand).ok(), want)?;
                Ok(true)
            },
        );
    }
}
