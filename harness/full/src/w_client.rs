// Random histories of a group call client, compared call by call with the model.
use crate::model::*;
use crate::oracle as o;
use crate::rig::*;
use crate::support::*;
use prost::Message;
use ringrtc::{
    common::{CallEndReason, DataMode, actor as clock, units::DataRate},
    core::{
        endorsements::EndorsementsCache,
        group_call::{vx_probe as g, *},
    },
    lite::sfu::{DemuxId, GroupMember, PeekInfo, UserId},
    protobuf::group_call as pb,
    webrtc::{peer_connection::SendRates, peer_connection_observer::IceConnectionState as Ice, rtp},
};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
pub enum Op {
    Connect,
    Join,
    Response { state: JoinState, creator: Option<u64>, era: String, good: bool },
    NoRoom(bool),
    Ice(Ice),
    Leave,
    Disconnect,
    Ring,
    RingKnown(i64),
    Answer(Option<PeekInfo>),
    Pass(u64),
    Mute(bool),
    MuteBy(DemuxId),
    Video(bool),
    Presenting(bool),
    Sharing(bool),
    Override(SendRates),
    AskMute(DemuxId),
    Resend,
    Mode(u8),
    Request(Vec<(DemuxId, u16, u16)>, u16),
    Decide(u64, bool),
    Admin(DemuxId, bool),
    Members(Vec<u64>),
    Proof(Vec<u8>),
    React(String),
    Raise(bool),
    Signal(u64, pb::DeviceToDevice),
    Frame(DemuxId, u32, Vec<u8>),
    Sfu(u32, pb::SfuToDevice),
    Height(DemuxId, u32),
    Busy(bool),
}

pub struct World {
    pub rig: Rig,
    pub m: M,
    named: Option<Vec<u64>>,
    next: (u32, u32),
}

fn hashed(u: u64) -> String {
    use sha2::Digest;
    hex::encode(sha2::Sha256::digest(user(u)))
}

impl World {
    pub fn new(opts: Opts, cache: Option<(EndorsementsCache, Cache)>) -> World {
        let (real, own) = match cache {
            Some((a, b)) => (Some(a), Some(b)),
            None => (None, None),
        };
        let rig = Rig::new(Opts { cache: real, ..opts.clone() });
        let first: [u8; 32] = rig.seen().send.1[..].try_into().unwrap();
        let mut m = M::new(&opts, own, first);
        m.ask_soon();
        World { rig, m, named: None, next: (1, 1) }
    }
    fn resolve(named: &Option<Vec<u64>>, s: &str) -> Option<UserId> {
        match named {
            None => hex::decode(s).ok(),
            Some(v) => v.iter().find(|u| hashed(**u) == s).map(|u| user(*u)),
        }
    }
    /// one operation on both
    pub fn step(&mut self, op: &Op) -> (Vec<Ev>, Vec<X>) {
        if let Op::Members(v) = op {
            let set: BTreeSet<_> = v.iter().collect();
            if self.named.as_ref().map(|n| n.iter().collect::<BTreeSet<_>>() != set).unwrap_or(!set.is_empty()) {
                self.named = Some(v.clone());
            }
        }
        let r = &self.rig;
        let real = match op.clone() {
            Op::Connect => r.step(|c| c.connect()),
            Op::Join => r.step(|c| c.join()),
            Op::Response { state, creator, era, good } => {
                let j = r.joined(state, creator.map(user), &era, if good { server_key() } else { [0; 32] });
                r.step(|c| c.on_sfu_client_join_attempt_completed(Ok(j)))
            }
            Op::NoRoom(full) => r.step(|c| {
                c.on_sfu_client_join_attempt_completed(Err(if full {
                    g::call_full()
                } else {
                    anyhow::anyhow!("no")
                }))
            }),
            Op::Ice(i) => r.step(|c| g::ice(c, i)),
            Op::Leave => r.step(|c| c.leave()),
            Op::Disconnect => r.step(|c| c.disconnect()),
            Op::Ring => r.step(|c| c.ring(None)),
            Op::RingKnown(i) => r.step(|c| c.provide_ring_id_if_absent(i.into())),
            Op::Answer(p) => r.answer(p.ok_or(500)).unwrap_or_default(),
            Op::Pass(ms) => r.pass(ms),
            Op::Mute(b) => r.step(|c| c.set_outgoing_audio_muted(b)),
            Op::MuteBy(d) => r.step(|c| c.set_outgoing_audio_muted_remotely(d)),
            Op::Video(b) => r.step(|c| c.set_outgoing_video_muted(b)),
            Op::Presenting(b) => r.step(|c| c.set_presenting(b)),
            Op::Sharing(b) => r.step(|c| c.set_sharing_screen(b)),
            Op::Override(x) => r.step(|c| c.override_send_rates(x)),
            Op::AskMute(d) => r.step(|c| c.send_remote_mute_request(d)),
            Op::Resend => r.step(|c| c.resend_media_keys()),
            Op::Mode(k) => r.step(|c| c.set_data_mode(mode(k))),
            Op::Request(v, a) => r.step(|c| c.request_video(requests(&v), a)),
            Op::Decide(u, true) => r.step(|c| c.approve_user(user(u))),
            Op::Decide(u, false) => r.step(|c| c.deny_user(user(u))),
            Op::Admin(d, true) => r.step(|c| c.remove_client(d)),
            Op::Admin(d, false) => r.step(|c| c.block_client(d)),
            Op::Members(v) => {
                r.step(|c| c.set_group_members(v.iter().map(|u| GroupMember { user_id: user(*u), member_id: user(*u) }).collect()))
            }
            Op::Proof(p) => r.step(|c| c.set_membership_proof(p)),
            Op::React(s) => r.step(|c| c.react(s)),
            Op::Raise(b) => r.step(|c| c.raise_hand(b)),
            Op::Signal(u, m) => r.step(|c| c.on_signaling_message_received(user(u), m)),
            Op::Frame(d, ts, f) => r.from_peer_at(ts, d, &f),
            Op::Sfu(ts, m) => r.from_sfu_at(ts, &m),
            Op::Height(d, h) => r.step(|c| g::frame_height(c, d, h)),
            Op::Busy(b) => {
                *r.busy.lock().unwrap() = b;
                vec![]
            }
        };
        let seen = r.seen();
        let m = &mut self.m;
        m.hint = seen.rotation.and_then(|(s, _)| s.try_into().ok());
        m.out.clear();
        if m.stopped && !matches!(op, Op::Pass(_)) {
            return (real, vec![]);
        }
        match op.clone() {
            Op::Connect => m.connect(),
            Op::Join => m.join(),
            Op::Response { state, creator, era, good } => m.joined_at_sfu(state, creator.map(user), &era, good),
            Op::NoRoom(full) => m.end(if full { CallEndReason::HasMaxDevices } else { CallEndReason::SfuClientFailedToJoin }),
            Op::Ice(i) => m.ice(i),
            Op::Leave => m.leave(),
            Op::Disconnect => m.end(CallEndReason::DeviceExplicitlyDisconnected),
            Op::Ring => m.ring(),
            Op::RingKnown(i) => m.ring_known(i),
            Op::Answer(p) => m.peeked(p),
            Op::Pass(ms) => m.pass(ms),
            Op::Mute(b) => m.mute(b, None),
            Op::MuteBy(d) => m.mute(true, Some(d)),
            Op::Video(b) => {
                m.hb.video_muted = Some(b);
                m.heartbeat()
            }
            Op::Presenting(b) => {
                m.hb.presenting = Some(b);
                m.heartbeat()
            }
            Op::Sharing(b) => m.share(b),
            Op::Override(x) => m.override_rates(x),
            Op::AskMute(d) => m.ask_mute(d),
            Op::Resend => m.resend(),
            Op::Mode(k) => m.data_mode(mode(k)),
            Op::Request(v, a) => m.request_video(requests(&v), a),
            Op::Decide(u, yes) => m.decide(&user(u), yes),
            Op::Admin(d, remove) => {
                use pb::device_to_sfu::{AdminAction, GenericAdminAction};
                let a = GenericAdminAction { target_demux_id: Some(d) };
                m.reliably(if remove { AdminAction::Remove(a) } else { AdminAction::Block(a) })
            }
            Op::Members(v) => m.set_members(v.into_iter().map(user).collect()),
            Op::Proof(p) => m.proof(p),
            Op::React(s) => m.react(s),
            Op::Raise(b) => m.raise(b),
            Op::Signal(u, x) => m.signal(user(u), x),
            Op::Frame(d, ts, f) => m.frame(d, ts, &f),
            Op::Sfu(ts, x) => {
                let h = rtp::Header { pt: 101, seqnum: ts as u16, timestamp: ts, ssrc: 1 };
                let named = self.named.clone();
                m.sfu(h, x, &|s| World::resolve(&named, s))
            }
            Op::Height(d, h) => m.height(d, h),
            Op::Busy(b) => m.busy = b,
        }
        (real, std::mem::take(&mut m.out))
    }

    /// what differs, by property
    pub fn compare(&mut self, real: Vec<Ev>, want: Vec<X>) -> BTreeMap<&'static str, String> {
        let mut bad = BTreeMap::new();
        let mut got = vec![];
        for e in real {
            match e {
                Ev::Noise => {}
                Ev::SfuJoin(k) => {
                    if k == [0; 32] {
                        bad.entry("G01").or_insert("joined with an empty key".to_string());
                    }
                    got.push(X::Ev(Ev::SfuJoin([0; 32])));
                }
                Ev::Devices(v, why) => got.push(X::Devices(v.iter().map(Dev::of).collect(), why)),
                Ev::Rtp((pt, seqnum, ts, ssrc), p) => {
                    let n = if ssrc == 1 { &mut self.next.0 } else { &mut self.next.1 };
                    if (seqnum, ts) != (*n as u16, *n) {
                        bad.entry("G09").or_insert(format!("packet to {ssrc} numbered {seqnum}/{ts}, the next number is {n}"));
                    }
                    *n = ts.wrapping_add(1);
                    if ssrc == 1 && pb::DeviceToSfu::decode(&p[..]).is_ok_and(|m| m.stats.is_some()) {
                        continue;
                    }
                    got.push(X::Rtp(pt, ssrc, p));
                }
                e => got.push(X::Ev(e)),
            }
        }
        let (got, want) = (sorted(got), sorted(want));
        if let Some(f) = self.m.fresh.take() {
            bad.entry("G05").or_insert(f);
        }
        if got != want {
            for p in PROPS {
                let (a, b) = (only(p, &got), only(p, &want));
                if a != b {
                    let k = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
                    bad.entry(p).or_insert(format!("call {k} was {}, should be {}", at(&a, k), at(&b, k)));
                }
            }
        }
        let s = self.rig.seen();
        let m = &mut self.m;
        let mut differ = |p: &'static str, what: &str, a: String, b: String| {
            if a != b {
                bad.entry(p).or_insert(format!("{what} is {a}, should be {b}"));
            }
        };
        macro_rules! same {
            ($p:expr, $what:expr, $a:expr, $b:expr) => {
                differ($p, $what, format!("{:?}", $a), format!("{:?}", $b))
            };
        }
        same!("G01", "the connection", s.conn, m.conn);
        same!("G01", "the join state", s.join, m.join);
        same!("G01", "negotiated", s.negotiated, m.negotiated);
        same!("G01", "busy", s.busy, m.busy);
        same!("G03", "the send rates", s.rates, m.rates);
        let devs: Vec<Dev> = s.devices.iter().map(Dev::of).collect();
        if devs != m.devs {
            let ids = |v: &Vec<Dev>| v.iter().map(|d| (d.id, d.user.clone(), d.added)).collect::<Vec<_>>();
            same!("G07", "the devices", ids(&devs), ids(&m.devs));
            let keys = |v: &Vec<Dev>| v.iter().map(|d| (d.id, d.keys)).collect::<Vec<_>>();
            same!("G06", "the devices with keys", keys(&devs), keys(&m.devs));
            let rest = |v: &Vec<Dev>| v.iter().map(said).collect::<Vec<_>>();
            same!("G04", "the devices", rest(&devs), rest(&m.devs));
        }
        if s.slots != m.slots {
            // the choice of place among the newcomers is open
            let place = |v: &Vec<Option<DemuxId>>, keep: &BTreeSet<DemuxId>| v.iter().map(|d| d.filter(|d| keep.contains(d))).collect::<Vec<_>>();
            let (a, b): (BTreeSet<_>, BTreeSet<_>) = (s.slots.iter().flatten().collect(), m.slots.iter().flatten().collect());
            same!("G07", "the receivers", a, b);
            let stayed: BTreeSet<DemuxId> = m.stayed.iter().copied().collect();
            same!("G07", "the receivers' places", place(&s.slots, &stayed), place(&m.slots, &stayed));
            m.slots = s.slots.clone();
        }
        m.stayed = m.slots.iter().flatten().copied().collect();
        same!("G07", "the users present", s.members, m.members);
        same!("G07", "has peeked", s.has_peek, m.last_peek.is_some());
        let req = match &m.req {
            Req::Waiting => "waiting".to_string(),
            Req::Never => "never".into(),
            Req::Requested { again, .. } => format!("requested again={again}"),
            Req::Updated(_) => "updated".into(),
            Req::Failed(_) => "failed".into(),
        };
        same!("G10", "the request", s.request, req);
        let (rc, secret) = m.ctx.send_state();
        same!("G05", "the send key", s.send, (rc, secret.to_vec()));
        same!("G05", "the rotation", s.rotation, m.rotation.map(|(s, a)| (s.to_vec(), a)));
        same!("G06", "the keys waiting for their device", s.pending_keys, m.pending_keys);
        same!("G06", "the receive keys", s.receive, g::receive_keys(&m.ctx));
        same!("G09", "the outgoing state", s.outgoing, m.hb);
        let ring = match &m.ring {
            Ring::Unknown => "Unknown".to_string(),
            Ring::Permitted(i) => format!("PermittedToRing {{ ring_id: {:?} }}", RingId::from(*i)),
            Ring::Wants => "WantsToRing { recipient: None }".into(),
            Ring::Sent(i) => format!("HasSentRing {{ ring_id: {:?} }}", RingId::from(*i)),
            Ring::Not => "NotPermittedToRing".into(),
        };
        same!("G08", "the ring", s.ring, ring);
        same!("G04", "the raised hands", s.hands, (m.hand.0, m.hand.1, m.hand.2, m.hands.clone()));
        bad
    }
}

const PROPS: [&str; 9] = ["G01", "G03", "G04", "G05", "G06", "G07", "G08", "G09", "G10"];

fn said(d: &Dev) -> String {
    format!(
        "{}: {:?} at {:?} muting {:?} spoke {:?} leaving {} forwarding {:?} {} {:?} {}",
        d.id, d.hb, d.hb_ts, d.muting, d.speaker, d.leaving, d.forwarding, d.allocated, d.decoded, d.higher
    )
}
fn at(v: &[String], k: usize) -> String {
    v.get(k).cloned().unwrap_or("nothing".into())
}
/// messages to single users in one go: any order
fn sorted(mut v: Vec<X>) -> Vec<X> {
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j < v.len() && matches!(v[j], X::Ev(Ev::Send { .. })) {
            j += 1;
        }
        v[i..j].sort_by_key(|x| format!("{x:?}"));
        i = j.max(i + 1);
    }
    v
}
/// what property p speaks of
fn only(p: &str, v: &[X]) -> Vec<String> {
    v.iter()
        .filter_map(|x| {
            let of = |q: &str| (p == q).then(|| format!("{x:?}"));
            let signal = |m: &ringrtc::protobuf::signaling::CallMessage| {
                let g = m.group_call_message.as_ref();
                if g.is_some_and(|g| g.media_key.is_some()) {
                    of("G05")
                } else if g.is_some_and(|g| g.leaving.is_some()) {
                    of("G09")
                } else {
                    of("G08")
                }
            };
            match x {
                X::Rtp(..) => of("G09"),
                X::Devices(v, why) if why.starts_with("DemuxIds") => {
                    (p == "G07").then(|| format!("devices changed: {:?}", v.iter().map(|d| (d.id, d.user[0], d.added)).collect::<Vec<_>>()))
                }
                X::Devices(v, why) if why.starts_with("MediaKey") => {
                    (p == "G06").then(|| format!("{why}: {:?}", v.iter().map(|d| (d.id, d.keys)).collect::<Vec<_>>()))
                }
                X::Devices(v, why) => (p == "G04").then(|| format!("{why}: {:?}", v.iter().map(said).collect::<Vec<_>>())),
                X::Ev(e) => match e {
                    Ev::Conn(_) | Ev::Join(_) | Ev::Ended(_) | Ev::SfuJoin(_) | Ev::AskProof => of("G01"),
                    Ev::Rates(_) => of("G03"),
                    Ev::Reactions(_) | Ev::MuteRequest(_) | Ev::ObservedMute(..) | Ev::Hands(_) => of("G04"),
                    Ev::AskMembers => of("G06"),
                    Ev::Peek(..) => of("G07"),
                    Ev::SfuPeek | Ev::SfuProof(_) | Ev::SfuMembers(_) => of("G10"),
                    Ev::Send { msg, .. } | Ev::Group { msg, .. } | Ev::Adhoc { msg, .. } => signal(msg),
                    _ => of("G04"),
                },
            }
        })
        .collect()
}

fn mode(k: u8) -> DataMode {
    match k {
        0 => DataMode::Low,
        1 => DataMode::Normal,
        k => DataMode::Custom { max_bitrate: DataRate::from_kbps(77), max_group_call_receive_rate: DataRate::from_kbps(k as u64) },
    }
}
fn requests(v: &[(DemuxId, u16, u16)]) -> Vec<VideoRequest> {
    v.iter().map(|(d, w, h)| VideoRequest { demux_id: *d, width: *w, height: *h, framerate: None }).collect()
}

const OWN: DemuxId = 160;
const IDS: [DemuxId; 11] = [16, 17, 18, 32, 33, 48, 49, 64, OWN, 176, u32::MAX - 15];

/// the keys peers have handed out, so that frames can be made with them
struct Peers {
    keys: Vec<(DemuxId, u8, [u8; 32])>,
    ts: u32,
    count: u32,
}

fn who(rng: &mut Rng, most: u64) -> (Who, Who) {
    let big = rng.chance(1, 12);
    let mut d = if big {
        (0..8 + rng.below(3)).map(|i| (200 + 16 * i as u32, Some(1 + i % 4))).collect()
    } else {
        crowd(rng, &IDS[..8], most)
    };
    if rng.chance(5, 6) {
        let k = rng.below(d.len() as u64 + 1) as usize;
        d.insert(k, (OWN, Some(ME)));
    }
    if rng.chance(1, 10) {
        d.push((176, Some(ME)));
    }
    if rng.chance(1, 12) && !d.is_empty() {
        // the same device twice
        let x = *rng.pick(&d);
        d.push(x);
    }
    let p = if rng.chance(1, 3) { crowd(rng, &[300, 301, 316, 332], 3) } else { vec![] };
    (d, p)
}

fn some_peek(rng: &mut Rng, w: &World) -> PeekInfo {
    let (d, p) = if rng.chance(1, 3) && w.m.last_peek.is_some() {
        // a small step from the last one
        let l = w.m.last_peek.as_ref().unwrap();
        let list = |v: &Vec<ringrtc::lite::sfu::PeekDeviceInfo>| v.iter().map(|d| (d.demux_id, d.user_id.as_ref().map(|u| u[0] as u64))).collect::<Who>();
        let (mut d, mut p) = (list(&l.devices), list(&l.pending_devices));
        match rng.below(5) {
            0 if !d.is_empty() => {
                d.remove(rng.below(d.len() as u64) as usize);
            }
            1 if !p.is_empty() => {
                p.remove(rng.below(p.len() as u64) as usize);
            }
            2 if !d.is_empty() => {
                let k = rng.below(d.len() as u64) as usize;
                d[k].1 = Some(1 + rng.below(4));
            }
            3 => {
                let x = *rng.pick(&IDS);
                if d.iter().all(|y| y.0 != x) {
                    d.push((x, Some(1 + rng.below(4))));
                }
            }
            _ => {}
        }
        (d, p)
    } else {
        who(rng, 5)
    };
    let era = match rng.below(8) {
        0 => None,
        1 => Some("other"),
        _ => Some("era"),
    };
    let mut i = peek(&d, &p, era);
    if rng.chance(1, 3) {
        i.max_devices = Some(rng.below(50) as u32);
        i.creator = Some(user(1 + rng.below(4)));
    }
    i
}

fn proto_of(w: &World, p: &PeekInfo) -> pb::sfu_to_device::PeekInfo {
    let mut q = as_proto(p);
    if w.named.is_some() {
        let f = |s: &mut Option<String>| {
            if let Some(x) = s {
                *x = hashed(u64::from_str_radix(&x[..2], 16).unwrap());
            }
        };
        q.devices.iter_mut().for_each(|d| f(&mut d.opaque_user_id));
        q.pending_devices.iter_mut().for_each(|d| f(&mut d.opaque_user_id));
        f(&mut q.creator);
    }
    q
}

fn sfu_message(rng: &mut Rng, w: &World) -> pb::SfuToDevice {
    use pb::sfu_to_device as s;
    let mut m = pb::SfuToDevice::default();
    let one = rng.below(10);
    let also = |rng: &mut Rng| rng.chance(1, 12);
    if one < 2 || also(rng) {
        m.speaker = Some(s::Speaker { demux_id: if rng.chance(1, 20) { None } else { Some(*rng.pick(&IDS)) } });
    }
    if (2..6).contains(&one) || also(rng) {
        let p = some_peek(rng, w);
        let mut q = proto_of(w, &p);
        if rng.chance(1, 25) && !q.devices.is_empty() {
            q.devices[0].demux_id = None;
        }
        m.device_joined_or_left = Some(s::DeviceJoinedOrLeft { peek_info: if rng.chance(1, 10) { None } else { Some(q) } });
    }
    if one == 6 || one == 7 || also(rng) {
        let n = rng.below(5);
        let ids: Vec<_> = (0..n).map(|_| *rng.pick(&IDS)).collect();
        let k = if rng.chance(1, 4) { rng.below(6) } else { n };
        let allocated_heights = (0..k).map(|_| *rng.pick(&[0, 1, 240, 480, 720, 65536 + 120])).collect();
        m.current_devices = Some(s::CurrentDevices { demux_ids_with_video: ids, all_demux_ids: vec![], allocated_heights });
    }
    if one == 8 || also(rng) {
        let n = rng.below(3);
        let demux_ids = (0..n).map(|_| *rng.pick(&IDS[..4])).collect();
        let near = (w.m.hand.0 as i64 + rng.range(-2, 2)).max(0) as u32;
        let target_seqnum = if rng.chance(1, 12) { None } else if rng.chance(1, 4) { Some(0) } else { Some(near) };
        m.raised_hands = Some(s::RaisedHands { demux_ids, seqnums: vec![], target_seqnum });
    }
    if rng.chance(1, 150) {
        m.removed = Some(s::Removed {});
    }
    m
}

fn next_op(rng: &mut Rng, w: &World, p: &mut Peers, focus: &str) -> Op {
    let in_call = w.m.local().is_some();
    let b = rng.chance(1, 2);
    let id = |rng: &mut Rng, w: &World| if !w.m.devs.is_empty() && rng.chance(3, 4) { rng.pick(&w.m.devs).id } else { *rng.pick(&IDS) };
    let key = |rng: &mut Rng, w: &World, p: &mut Peers| {
        let d = id(rng, w);
        let own = w.m.devs.iter().find(|x| x.id == d).map(|x| x.user[0] as u64);
        let u = match own {
            Some(u) if rng.chance(5, 6) => u,
            _ => 1 + (d as u64 / 16) % 4,
        };
        let rc = if rng.chance(1, 10) { 250 + rng.below(10) as u32 } else { rng.below(3) as u32 };
        let secret: [u8; 32] = rng.bytes(32).try_into().unwrap();
        let n = if rng.chance(1, 25) { rng.below(40) as usize } else { 32 };
        if n == 32 && rc < 256 {
            p.keys.push((d, rc as u8, secret));
        }
        let mut sent = secret.to_vec();
        sent.resize(n, 7);
        Op::Signal(u, pb::DeviceToDevice {
            group_id: Some(GROUP.to_vec()),
            media_key: Some(pb::device_to_device::MediaKey {
                demux_id: if rng.chance(1, 40) { None } else { Some(d) },
                ratchet_counter: Some(rc),
                secret: Some(sent),
            }),
            ..Default::default()
        })
    };
    let frame = |rng: &mut Rng, w: &World, p: &mut Peers| {
        let have: Vec<_> = p.keys.iter().filter(|k| w.m.devs.iter().any(|d| d.id == k.0 && d.keys)).cloned().collect();
        let (d, rc, s) = if !have.is_empty() && rng.chance(5, 6) {
            // most often the newest key
            if b { *have.last().unwrap() } else { *rng.pick(&have) }
        } else {
            (id(rng, w), 0, [3; 32])
        };
        let mut m = pb::DeviceToDevice::default();
        let flag = |rng: &mut Rng| match rng.below(5) {
            0 => None,
            1 | 2 => Some(true),
            _ => Some(false),
        };
        let kind = rng.below(10);
        if kind < 5 {
            m.heartbeat = Some(pb::device_to_device::Heartbeat {
                audio_muted: flag(rng),
                video_muted: flag(rng),
                presenting: if b { Some(b) } else { None },
                sharing_screen: None,
                muted_by_demux_id: if rng.chance(1, 3) { None } else { Some(if rng.chance(1, 3) { OWN } else { id(rng, w) }) },
            });
        }
        if kind == 5 {
            m.leaving = Some(Default::default());
        }
        if kind == 6 || rng.chance(1, 20) {
            let n = *rng.pick(&[0, 1, 4, 256, 257]);
            m.reaction = Some(pb::device_to_device::Reaction { value: Some("x".repeat(n)) });
        }
        if kind > 6 {
            let t = match rng.below(4) {
                0 => Some(OWN),
                1 if rng.chance(1, 4) => None,
                _ => Some(id(rng, w)),
            };
            m.remote_mute_request = Some(pb::RemoteMuteRequest { target_demux_id: t });
        }
        p.count += 1;
        p.ts = (p.ts as i64 + rng.range(-2, 6)).max(0) as u32;
        let k = rng.below(3);
        let mut f = framed(&o::steps(&s, k), rc.wrapping_add(k as u8), p.count, &m.encode_to_vec());
        if rng.chance(1, 25) {
            let i = rng.below(f.len() as u64) as usize;
            f[i] ^= 1;
        }
        Op::Frame(d, p.ts, f)
    };
    let sfu = |rng: &mut Rng, w: &World, p: &mut Peers| {
        p.ts = (p.ts as i64 + rng.range(-2, 6)).max(0) as u32;
        Op::Sfu(p.ts, sfu_message(rng, w))
    };
    // steps towards a call first
    if !in_call && rng.chance(3, 4) {
        return match (w.m.conn, w.m.join) {
            (ConnectionState::NotConnected, _) => Op::Connect,
            (_, JoinState::NotJoined(_)) => Op::Join,
            (_, JoinState::Joining) => Op::Response {
                state: if rng.chance(1, 4) { JoinState::Pending(OWN) } else { JoinState::Joined(OWN) },
                creator: *rng.pick(&[None, Some(ME), Some(ME), Some(1)]),
                era: rng.pick(&["era", "0123456789abcdef", "ffffffffffffffff", "0000000000000000", "FEDCBA9876543210", "fedcba987654321"]).to_string(),
                good: !rng.chance(1, 40),
            },
            _ => Op::Pass(50),
        };
    }
    if in_call && w.m.conn == ConnectionState::Connecting && rng.chance(1, 3) {
        return Op::Ice(Ice::Connected);
    }
    let focused = match focus {
        "G01" => 1,
        "G04" => 4,
        "G05" | "G06" => 5,
        "G07" | "G03" => 7,
        "G08" => 8,
        "G10" => 10,
        _ => 0,
    };
    if rng.chance(1, 2) {
        match focused {
            4 => return if rng.chance(1, 4) { key(rng, w, p) } else if b { frame(rng, w, p) } else { sfu(rng, w, p) },
            5 => {
                return match rng.below(6) {
                    0 | 1 => key(rng, w, p),
                    2 => Op::Pass(*rng.pick(&[1000, 3000, 4800, 4990])),
                    3 => Op::Resend,
                    _ => Op::Sfu(1, pb::SfuToDevice {
                        device_joined_or_left: Some(pb::sfu_to_device::DeviceJoinedOrLeft { peek_info: Some(proto_of(w, &some_peek(rng, w))) }),
                        ..Default::default()
                    }),
                };
            }
            7 => {
                return match rng.below(4) {
                    0 => Op::Sharing(b),
                    1 if focus == "G03" && w.m.sfu => Op::Override(SendRates { max: Some(DataRate::from_kbps(*rng.pick(&[1, 300]))), ..Default::default() }),
                    _ => Op::Answer(Some(some_peek(rng, w))),
                };
            }
            8 => return if rng.chance(1, 3) { Op::Ring } else if b { Op::Leave } else { sfu(rng, w, p) },
            1 => {
                return match rng.below(14) {
                    0 => Op::Ice(*rng.pick(&[Ice::Checking, Ice::Disconnected, Ice::Checking, Ice::New, Ice::Connected, Ice::Completed])),
                    1 => Op::Ice(Ice::Connected),
                    2 => Op::Leave,
                    3 => Op::Disconnect,
                    4 => Op::Join,
                    5 => Op::Connect,
                    6 => Op::Busy(b),
                    7 => Op::Sfu(1, pb::SfuToDevice { removed: Some(pb::sfu_to_device::Removed {}), ..Default::default() }),
                    8 => Op::NoRoom(b),
                    9 => Op::Ice(*rng.pick(&[Ice::Failed, Ice::Closed])),
                    10 => Op::Answer(Some(some_peek(rng, w))),
                    _ => Op::Pass(*rng.pick(&[10, 20, 30, 200])),
                };
            }
            10 => {
                return match rng.below(7) {
                    0 => Op::Proof(rng.bytes(3)),
                    1 => Op::Members((0..rng.below(4)).map(|_| 1 + rng.below(4)).collect::<BTreeSet<_>>().into_iter().collect()),
                    2 => Op::Answer(None),
                    3 => Op::Answer(Some(some_peek(rng, w))),
                    4 => frame(rng, w, p),
                    _ => Op::Pass(*rng.pick(&[200, 1999, 2000, 2100, 4800, 4999])),
                };
            }
            _ => {}
        }
    }
    match rng.below(100) {
        0..10 => Op::Pass(*rng.pick(&[1, 19, 20, 150, 200, 450, 1000, 2000, 4000, 4900])),
        10..16 => Op::Answer(if rng.chance(1, 8) { None } else { Some(some_peek(rng, w)) }),
        16..36 => sfu(rng, w, p),
        36..46 => key(rng, w, p),
        46..62 => frame(rng, w, p),
        62..64 => Op::Mute(b),
        64 => Op::MuteBy(id(rng, w)),
        65 => Op::Video(b),
        66 => Op::Presenting(b),
        67..69 => Op::Sharing(b),
        69 if w.m.sfu && rng.chance(1, 6) => Op::Override(SendRates { max: Some(DataRate::from_kbps(*rng.pick(&[1, 300]))), ..Default::default() }),
        70..72 => Op::AskMute(id(rng, w)),
        72 => Op::Resend,
        73 => Op::Mode(rng.below(4) as u8),
        74..76 => Op::Request((0..rng.below(4)).map(|_| (id(rng, w), rng.below(900) as u16, rng.below(900) as u16)).collect(), rng.below(900) as u16),
        76 => Op::Decide(1 + rng.below(4), b),
        77 => Op::Admin(id(rng, w), b),
        78 => Op::Members((0..rng.below(4)).map(|_| 1 + rng.below(4)).collect::<BTreeSet<_>>().into_iter().collect()),
        79..81 => Op::Proof(rng.bytes(3)),
        81 => Op::React("y".repeat(*rng.pick(&[0, 1, 5, 256, 257]))),
        82..84 => Op::Raise(b),
        84..88 => Op::Height(id(rng, w), *rng.pick(&[0, 120, 240, 480, 720])),
        88 => Op::Ring,
        89 => Op::RingKnown(rng.u64() as i64),
        90..93 => Op::Signal(1 + rng.below(4), pb::DeviceToDevice {
            group_id: Some(if rng.chance(1, 6) { b"another".to_vec() } else { GROUP.to_vec() }),
            leaving: Some(pb::device_to_device::Leaving { demux_id: Some(id(rng, w)) }),
            ..Default::default()
        }),
        93 => {
            // the reliable stream: an acknowledgement, or a numbered message
            let mut m = sfu_message(rng, w);
            let n = rng.below(6);
            m.mrp_header = Some(if b {
                pb::MrpHeader { ack_num: Some(n), ..Default::default() }
            } else {
                pb::MrpHeader { seqnum: Some(n), ..Default::default() }
            });
            p.ts += 1;
            Op::Sfu(p.ts, m)
        }
        94 => Op::Ice(*rng.pick(&[Ice::New, Ice::Checking, Ice::Connected, Ice::Completed, Ice::Disconnected])),
        95 if rng.chance(1, 3) => Op::Leave,
        96 if rng.chance(1, 8) => Op::Disconnect,
        97 if rng.chance(1, 2) => Op::Join,
        98 if rng.chance(1, 2) => Op::Connect,
        99 if rng.chance(1, 8) => Op::Ice(*rng.pick(&[Ice::Failed, Ice::Closed])),
        _ => Op::Pass(100),
    }
}

pub fn framed(s: &o::S, rc: u8, n: u32, plain: &[u8]) -> Vec<u8> {
    let ct = o::crypt(s, n as u64, plain);
    let mut f = ct.clone();
    f.push(rc);
    f.extend(n.to_be_bytes());
    f.extend(o::mac(s, n as u64, &ct));
    f
}

fn endorsed(rng: &mut Rng) -> (EndorsementsCache, Cache) {
    let mut c = EndorsementsCache::new(zkgroup::call_links::CallLinkSecretParams([7; 16]));
    let mut own = BTreeMap::new();
    for _ in 0..rng.below(3) {
        let exp = 1_700_000_000 + rng.below(4);
        let users: BTreeMap<UserId, zkgroup::groups::GroupSendEndorsement> =
            (0..rng.below(6)).map(|u| (user(u), zkgroup::groups::GroupSendEndorsement(vec![zkgroup::call_links::CallLinkSecretParams([7; 16]).encrypt_uid(rng.bytes(16).try_into().unwrap())]))).collect();
        let e: &mut BTreeMap<UserId, Vec<u8>> = own.entry(exp).or_default();
        e.extend(users.iter().map(|(u, x)| (u.clone(), zkgroup::serialize(x))));
        c.insert(zkgroup::Timestamp::from_epoch_seconds(exp), users.into_iter().collect());
    }
    (c, Cache(own))
}

/// histories of one kind of client, judged by one property
pub fn histories(run: &mut Run, prop: &'static str) {
    let mut rng = run.rng(0x6C00 + prop.bytes().map(|b| b as u64).sum::<u64>());
    run.suite("histories");
    for _ in 0..run.quick_or(2500, 60_000) {
        let opts = Opts {
            link: rng.chance(1, 3),
            me: !rng.chance(1, 12),
            ring: if rng.chance(1, 3) { Some(77) } else { None },
            cache: None,
        };
        let cache = if opts.link && rng.chance(2, 3) { Some(endorsed(&mut rng)) } else { None };
        let seed = rng.u64();
        let trace = RefCell::new(vec![format!("link {} own id known {} ring {:?}", opts.link, opts.me, opts.ring)]);
        run.case(
            || trace.borrow().join("; "),
            || {
                let mut rng = Rng::new(seed);
                let mut w = World::new(opts.clone(), cache);
                let mut p = Peers { keys: vec![], ts: 1, count: 1 };
                let start: Vec<X> = w.m.out.drain(..).collect();
                let real = w.rig.take();
                if !w.compare(real, start).is_empty() {
                    return Ok(false);
                }
                let len = 10 + rng.below(60);
                let mut calls = 0;
                for _ in 0..len {
                    let op = next_op(&mut rng, &w, &mut p, prop);
                    if matches!(op, Op::Answer(_)) && w.rig.peeks.lock().unwrap().is_empty() {
                        continue;
                    }
                    trace.borrow_mut().push(short(&op));
                    let (real, want) = w.step(&op);
                    let relevant = !only(prop, &want).is_empty();
                    calls += relevant as usize;
                    let bad = w.compare(real, want);
                    if let Some(b) = bad.get(prop) {
                        return Err(b.clone());
                    }
                    if !bad.is_empty() {
                        if std::env::var("VX_ALL").is_ok() {
                            return Err(format!("{bad:?}"));
                        }
                        return Ok(calls > 0);
                    }
                    if w.m.stopped {
                        break;
                    }
                }
                Ok(calls > 0)
            },
        );
    }
}
fn short(op: &Op) -> String {
    match op {
        Op::Frame(d, ts, f) => format!("Frame from {d} at {ts}: {}", hex::encode(f)),
        o => format!("{o:?}"),
    }
}
