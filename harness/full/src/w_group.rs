use crate::oracle as o;
use crate::support::*;
use ringrtc::core::{crypto::Context, crypto::Secret, group_call::vx_probe as g};

/// a frame written from the description: payload, key step, 32-bit counter, 16-byte code
fn framed(s: &o::S, rc: u8, n: u32, plain: &[u8]) -> Vec<u8> {
    let ct = o::crypt(s, n as u64, plain);
    let mut f = ct.clone();
    f.push(rc);
    f.extend(n.to_be_bytes());
    f.extend(o::mac(s, n as u64, &ct));
    f
}

pub fn f06(run: &mut Run) {
    let mut rng = run.rng(0xF06);
    run.suite("frame-sizes");
    for i in 0..run.quick_or(4000, 100_000) {
        let n = if i < 100 { i as usize } else { rng.edgy() as usize };
        run.case(|| format!("{n}"), || {
            let (c, p) = (g::ciphertext_size(n), g::plaintext_size(n));
            if c != n.saturating_add(21) || p != n.saturating_sub(21) {
                return Err(format!("sizes for {n}: {c} and {p}"));
            }
            Ok(true)
        });
    }
    run.suite("frame-sealed");
    for _ in 0..run.quick_or(3000, 40_000) {
        let secret: o::S = rng.bytes(32).try_into().unwrap();
        let k = rng.below(4);
        let start = match rng.below(4) {
            0 => 1 + rng.below(300),
            1 => u32::MAX as u64 - rng.below(4),
            2 => u32::MAX as u64 + rng.below(3),
            _ => 1 + (rng.u64() & 0xFFFF_FFFF),
        };
        let plain = { let n = rng.below(70) as usize; rng.bytes(n) };
        let room = (plain.len() as i64 + rng.range(-2, 24)).max(0) as usize;
        let room = if rng.chance(1, 3) { plain.len() + 21 + rng.below(5) as usize } else { room };
        run.case(|| format!("secret {} steps {k} counter {start} payload {} room {room}", hex::encode(secret), hex::encode(&plain)), || {
            let mut c = Context::new(Secret::from(secret));
            for _ in 0..k {
                c.advance_send_ratchet();
            }
            ringrtc::core::crypto::vx_probe::set_frame_counter(&mut c, start);
            let mut buf = vec![0xA5u8; room];
            let r = g::seal(&mut c, &plain, &mut buf);
            let fits = room >= plain.len() + 21 && start <= u32::MAX as u64;
            match r {
                Ok(n) if fits => {
                    let want = framed(&o::steps(&secret, k), k as u8, start as u32, &plain);
                    if n != want.len() || buf[..n] != want[..] {
                        return Err(format!("wrote {} instead of {}", hex::encode(&buf[..n.min(buf.len())]), hex::encode(want)));
                    }
                    if buf[n..].iter().any(|b| *b != 0xA5) {
                        return Err("wrote past the frame".into());
                    }
                    Ok(true)
                }
                Ok(n) => Err(format!("said {n} bytes were written into {room}, counter {start}")),
                Err(e) if fits => Err(format!("refused: {e}")),
                Err(_) => Ok(false),
            }
        });
    }
    run.suite("frame-opened");
    for _ in 0..run.quick_or(3000, 40_000) {
        let secret: o::S = rng.bytes(32).try_into().unwrap();
        let n = match rng.below(3) {
            0 => rng.below(300) as u32,
            1 => u32::MAX - rng.below(3) as u32,
            _ => rng.u64() as u32,
        };
        let k = rng.below(4);
        let plain = { let n = rng.below(70) as usize; rng.bytes(n) };
        let mut frame = framed(&o::steps(&secret, k), k as u8, n, &plain);
        let spoil = rng.below(6);
        match spoil {
            0 => { let i = rng.below(frame.len() as u64) as usize; frame[i] ^= 1 << rng.below(8); }
            1 => frame.truncate(rng.below(frame.len() as u64) as usize),
            _ => {}
        }
        // a changed key step is also covered by the code, as it selects the key; counters are in the code
        let room = if rng.chance(1, 4) { rng.below(plain.len() as u64 + 3) as usize } else { plain.len() + rng.below(5) as usize };
        let in_place = rng.below(3);
        run.case(|| format!("secret {} frame {} room {room} in_place {in_place}", hex::encode(secret), hex::encode(&frame)), || {
            let mut c = Context::new(Secret::from([0u8; 32]));
            c.add_receive_secret(7, 0, Secret::from(secret));
            let (r, buf, room) = match in_place {
                0 => {
                    let mut buf = vec![0xA5u8; room];
                    (g::open(&mut c, 7, &frame, &mut buf), buf, room)
                }
                i => {
                    let shift = if i == 1 { 0 } else { 5 };
                    let mut buf = vec![0u8; shift];
                    buf.extend(&frame);
                    let l = frame.len();
                    let room = buf.len();
                    (g::open_in_place(&mut c, 7, &mut buf, l, shift), buf, room)
                }
            };
            let good = spoil >= 2 && room >= plain.len();
            match r {
                Ok(m) if good => {
                    if m != plain.len() || buf[..m] != plain[..] {
                        return Err(format!("opened to {} instead of {}", hex::encode(&buf[..m.min(buf.len())]), hex::encode(&plain)));
                    }
                    if in_place == 0 && buf[m..].iter().any(|b| *b != 0xA5) {
                        return Err("wrote past the payload".into());
                    }
                    Ok(true)
                }
                Ok(m) => Err(format!("a damaged or oversized frame opened to {m} bytes")),
                Err(e) if good => Err(format!("a good frame was refused: {e}")),
                Err(_) => Ok(false),
            }
        });
    }
    run.suite("frame-both-ends");
    for _ in 0..run.quick_or(600, 8_000) {
        let secret: o::S = rng.bytes(32).try_into().unwrap();
        let plain = { let n = rng.below(2000) as usize; rng.bytes(n) };
        run.case(|| format!("secret {} payload {}", hex::encode(secret), hex::encode(&plain)), || {
            let mut a = Context::new(Secret::from(secret));
            let mut b = Context::new(Secret::from([1u8; 32]));
            b.add_receive_secret(3, 0, Secret::from(secret));
            let mut frame = vec![0u8; g::ciphertext_size(plain.len())];
            let n = g::seal(&mut a, &plain, &mut frame).map_err(|e| e.to_string())?;
            if n != frame.len() {
                return Err(format!("{n} bytes of {}", frame.len()));
            }
            let mut out = vec![0u8; g::plaintext_size(frame.len())];
            let m = g::open(&mut b, 3, &frame, &mut out).map_err(|e| e.to_string())?;
            if m != out.len() || out != plain {
                return Err("the payload came out different".into());
            }
            if g::open(&mut b, 4, &frame, &mut out).is_ok() {
                return Err("opened as another sender's frame".into());
            }
            Ok(true)
        });
    }
}
