// Key agreement, slices, sizes and rates.
use crate::support::*;
use rand::{SeedableRng, rngs::StdRng};
use ringrtc::{
    common::{
        slice::{SafeSlicing, safe_copy_array},
        units::{DataRate, DataSize},
    },
    core::{connection::vx_probe as c, group_call::vx_probe as g},
};
use x25519_dalek::{EphemeralSecret, PublicKey, StaticSecret};

fn hkdf(shared: &[u8], info: &[u8], n: usize) -> Vec<u8> {
    // RFC 5869 by hand
    use hmac::Mac;
    type H = hmac::Hmac<sha2::Sha256>;
    let mac = |k: &[u8], m: &[&[u8]]| {
        let mut h = <H as Mac>::new_from_slice(k).unwrap();
        m.iter().for_each(|x| h.update(x));
        h.finalize().into_bytes().to_vec()
    };
    let prk = mac(&[0; 32], &[shared]);
    let (mut out, mut t, mut i) = (vec![], vec![], 1u8);
    while out.len() < n {
        t = mac(&prk, &[&t, info, &[i]]);
        out.extend(&t);
        i += 1;
    }
    out.truncate(n);
    out
}
fn split(b: &[u8], sizes: [usize; 4]) -> [Vec<u8>; 4] {
    let mut at = 0;
    sizes.map(|n| {
        at += n;
        b[at - n..at].to_vec()
    })
}
fn some_info(rng: &mut Rng) -> Vec<u8> {
    let n = *rng.pick(&[0, 1, 31, 32, 33, 33, 64, 100]);
    rng.bytes(n)
}

pub fn g02(run: &mut Run) {
    let mut rng = run.rng(0x602);
    run.suite("server-and-client-agree");
    for _ in 0..run.quick_or(3000, 40_000) {
        let (a, b) = (rng.u64(), rng.u64());
        let info = some_info(&mut rng);
        let again = rng.chance(1, 3).then(|| rng.bytes(32).try_into().unwrap());
        let bad = rng.chance(1, 8);
        run.case(|| format!("client {a} server {b} info {} again {again:?} no contribution {bad}", hex::encode(&info)), || {
            let mine = EphemeralSecret::random_from_rng(StdRng::seed_from_u64(a));
            let theirs = StaticSecret::random_from_rng(StdRng::seed_from_u64(b));
            let shared = theirs.diffie_hellman(&PublicKey::from(&mine));
            let server = if bad { [0; 32] } else { *PublicKey::from(&theirs).as_bytes() };
            let got = g::dhe(mine, server, &info, again);
            let mut label = b"Signal_Group_Call_20211105_SignallingDH_SRTPKey_KDF".to_vec();
            label.extend(&info);
            let want = (!bad).then(|| split(&hkdf(shared.as_bytes(), &label, 56), [16, 12, 16, 12]));
            if got != want {
                return Err(format!("keys {got:?}, should be {want:?}"));
            }
            Ok(!bad)
        });
    }
    run.suite("parts-of-the-key-material");
    for _ in 0..run.quick_or(500, 5000) {
        let m: [u8; 56] = rng.bytes(56).try_into().unwrap();
        run.case(|| hex::encode(m), || {
            if g::srtp_from(&m) != split(&m, [16, 12, 16, 12]) {
                return Err(format!("split into {:?}", g::srtp_from(&m)));
            }
            Ok(true)
        });
    }
}

pub fn c06(run: &mut Run) {
    let mut rng = run.rng(0xC06);
    run.suite("caller-and-callee-agree");
    for _ in 0..run.quick_or(3000, 40_000) {
        let (a, b): ([u8; 32], [u8; 32]) = (rng.bytes(32).try_into().unwrap(), rng.bytes(32).try_into().unwrap());
        let (caller, callee) = (some_info(&mut rng), some_info(&mut rng));
        let how = rng.below(8);
        run.case(|| format!("{} {} {} {} {how}", hex::encode(a), hex::encode(b), hex::encode(&caller), hex::encode(&callee)), || {
            let (sa, sb) = (StaticSecret::from(a), StaticSecret::from(b));
            let (pa, mut pb) = (PublicKey::from(&sa).as_bytes().to_vec(), PublicKey::from(&sb).as_bytes().to_vec());
            match how {
                0 => pb = vec![0; 32],
                1 => pb.truncate(31),
                2 => pb.push(0),
                3 if a[0] < 40 => pb.clear(),
                _ => {}
            }
            let ok = pb == PublicKey::from(&sb).as_bytes();
            let got = c::srtp_keys(a, &pb, &caller, &callee);
            let mut label = b"Signal_Calling_20200807_SignallingDH_SRTPKey_KDF".to_vec();
            label.extend(&caller);
            label.extend(&callee);
            let shared = sa.diffie_hellman(&PublicKey::from(&sb));
            let want = ok.then(|| split(&hkdf(shared.as_bytes(), &label, 88), [32, 12, 32, 12]));
            if got != want {
                return Err(format!("keys {got:?}, should be {want:?}"));
            }
            if ok && c::srtp_keys(b, &pa, &caller, &callee) != got {
                return Err("the two ends have different keys".into());
            }
            Ok(ok)
        });
    }
}

pub fn u03(run: &mut Run) {
    let mut rng = run.rng(0x003);
    run.suite("copies");
    for _ in 0..run.quick_or(3000, 30_000) {
        let n = rng.below(12) as usize;
        let src = { let m = if rng.chance(1, 2) { n } else { rng.below(12) as usize }; rng.bytes(m) };
        let was = rng.bytes(n);
        run.case(|| format!("{} over {}", hex::encode(&src), hex::encode(&was)), || {
            let want = if src.len() == n { &src } else { &was };
            let mut v = was.clone();
            let mut s = was.clone();
            let mut r = was.clone();
            let rs = [v.safe_copy_from_slice(&src).is_ok(), s[..].safe_copy_from_slice(&src).is_ok(), (&mut r[..]).safe_copy_from_slice(&src).is_ok()];
            for (k, x) in [&v, &s, &r].iter().enumerate() {
                if *x != want || rs[k] != (src.len() == n) {
                    return Err(format!("form {k}: {} {}", hex::encode(x), rs[k]));
                }
            }
            macro_rules! arr {
                ($($k:expr),*) => { $( if n == $k {
                    let mut a: [u8; $k] = was[..].try_into().unwrap();
                    let ok = a.safe_copy_from_slice(&src).is_ok();
                    if a[..] != want[..] || ok != (src.len() == n) {
                        return Err(format!("array: {} {ok}", hex::encode(a)));
                    }
                    let mut wide = [9u8; $k + 3];
                    safe_copy_array(&a, &mut wide);
                    if wide[..$k] != a[..] || wide[$k..] != [9; 3] {
                        return Err(format!("into a longer array: {}", hex::encode(wide)));
                    }
                } )* };
            }
            arr!(0, 1, 2, 3, 5, 8, 11);
            Ok(src.len() == n)
        });
    }
}

pub fn u01(run: &mut Run) {
    let mut rng = run.rng(0x001);
    run.suite("conversions");
    for i in 0..run.quick_or(5000, 100_000) {
        let n = match i % 4 {
            0 => i as u64,
            1 => rng.u64() >> rng.below(64),
            2 => u64::MAX / *rng.pick(&[1, 8, 1000, 8000, 1_000_000, 8_000_000]),
            _ => rng.edgy(),
        };
        let o = if rng.chance(1, 3) { n } else { rng.u64() >> rng.below(64) };
        run.case(|| format!("{n} {o}"), || {
            macro_rules! same {
                ($a:expr, $b:expr) => {
                    let (a, b) = ($a, $b);
                    if a != b {
                        return Err(format!("{} is {a:?}, should be {b:?}", stringify!($a)));
                    }
                };
            }
            let r = DataRate::from_bps(n);
            let s = DataSize::from_bits(n);
            same!(r.as_bps(), n);
            same!(r.as_kbps(), n / 1000);
            same!(r.as_mbps(), n / 1_000_000);
            same!(s.as_bits(), n);
            same!(s.as_bytes(), n / 8);
            same!(s.as_kilobits(), n / 1000);
            same!(s.as_kilobytes(), n / 8000);
            same!(s.as_megabits(), n / 1_000_000);
            same!(s.as_megabytes(), n / 8_000_000);
            same!(s.per_second(), r);
            same!(DataRate::per_second(s), r);
            same!(r < DataRate::from_bps(o), n < o);
            same!(r.min_opt(None).as_bps(), n);
            same!(r.min_opt(Some(DataRate::from_bps(o))).as_bps(), n.min(o));
            if n.checked_add(o).is_some() {
                same!((s + DataSize::from_bits(o)).as_bits(), n + o);
            }
            if let Some(x) = n.checked_mul(8) {
                same!(DataSize::from_bytes(n).as_bits(), x);
                same!(DataSize::from_bytes(n).as_bytes(), n);
            }
            if let Some(x) = n.checked_mul(1000) {
                same!(DataRate::from_kbps(n).as_bps(), x);
                same!(DataRate::from_kbps(n).as_kbps(), n);
                same!(DataSize::from_kilobits(n).as_bits(), x);
            }
            if let Some(x) = n.checked_mul(8000) {
                same!(DataSize::from_kilobytes(n).as_bits(), x);
                same!(DataSize::from_kilobytes(n).as_kilobytes(), n);
            }
            if let Some(x) = n.checked_mul(1_000_000) {
                same!(DataRate::from_mbps(n).as_bps(), x);
                same!(DataSize::from_megabits(n).as_bits(), x);
                same!(DataSize::from_megabits(n).as_megabits(), n);
            }
            if let Some(x) = n.checked_mul(8_000_000) {
                same!(DataSize::from_megabytes(n).as_bits(), x);
                same!(DataSize::from_megabytes(n).as_megabytes(), n);
            }
            Ok(true)
        });
    }
}
