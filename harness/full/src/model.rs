// What a group call client must do, written from the contracts: every outward call, and the state.
// The harness compares the real client with it call by call.
use crate::rig::*;
use mrp::{MrpHeader, MrpStream};
use prost::Message;
use ringrtc::{
    common::{CallEndReason, DataMode, actor as clock, units::DataRate},
    core::{
        crypto::Secret,
        group_call::{vx_probe as g, *},
    },
    lite::sfu::{DemuxId, PeekInfo, UserId},
    protobuf::{group_call as pb, signaling as sig},
    webrtc::{peer_connection::SendRates, peer_connection_observer::IceConnectionState as Ice, rtp},
};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::time::{Duration, SystemTime};

#[derive(Clone, Debug, PartialEq)]
pub struct Dev {
    pub id: DemuxId,
    pub user: UserId,
    pub keys: bool,
    pub hb: HeartbeatState,
    pub hb_ts: Option<u32>,
    pub muting: BTreeSet<DemuxId>,
    pub speaker: Option<SystemTime>,
    pub added: SystemTime,
    pub leaving: bool,
    pub forwarding: Option<bool>,
    pub allocated: u16,
    pub decoded: Option<u32>,
    pub higher: bool,
}
impl Dev {
    pub fn of(d: &RemoteDeviceState) -> Dev {
        Dev {
            id: d.demux_id,
            user: d.user_id.clone(),
            keys: d.media_keys_received,
            hb: d.heartbeat_state.clone(),
            hb_ts: g::heartbeat_ts(d),
            muting: g::seen_muting(d),
            speaker: d.speaker_time,
            added: d.added_time,
            leaving: d.leaving_received,
            forwarding: d.forwarding_video,
            allocated: d.server_allocated_height,
            decoded: d.client_decoded_height,
            higher: d.is_higher_resolution_pending,
        }
    }
    fn higher(&mut self) {
        self.higher = self.allocated as u32 > self.decoded.unwrap_or(0);
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Ev(Ev),
    Devices(Vec<Dev>, String),
    Rtp(u8, u32, Vec<u8>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Req {
    Waiting,
    Never,
    Requested { at: u64, again: bool },
    Updated(u64),
    Failed(u64),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ring {
    Unknown,
    Permitted(i64),
    Wants,
    Sent(i64),
    Not,
}
#[derive(Clone, Debug)]
enum Task {
    Tick,
    Rotate([u8; 32]),
    AskAgain,
    Close(CallEndReason),
}
const S: u64 = 1_000_000_000;
const MS: u64 = 1_000_000;

pub struct Cache(pub BTreeMap<u64, BTreeMap<UserId, Vec<u8>>>);

pub struct M {
    pub link: bool,
    pub me: Option<UserId>,
    pub cache: Option<Cache>,
    pub now: u64,
    seq: u64,
    later: Vec<(u64, u64, Task)>,
    pub stopped: bool,
    pub conn: ConnectionState,
    pub join: JoinState,
    waiting_dhe: bool,
    pub negotiated: bool,
    failed_dhe: bool,
    pub sfu: bool,
    pub devs: Vec<Dev>,
    pub slots: Vec<Option<DemuxId>>,
    pub stayed: BTreeSet<DemuxId>,
    pub members: BTreeSet<UserId>,
    pend: (usize, BTreeSet<UserId>),
    pub last_peek: Option<PeekInfo>,
    known: BTreeSet<UserId>,
    pub req: Req,
    pub ctx: g::Ctx,
    pub rotation: Option<([u8; 32], bool)>,
    pub hint: Option<[u8; 32]>,
    pub secrets: HashSet<Vec<u8>>,
    pub pending_keys: Vec<(UserId, DemuxId, u8, Vec<u8>)>,
    pub rates: SendRates,
    pub over: Option<SendRates>,
    pub hb: HeartbeatState,
    pub ring: Ring,
    pub busy: bool,
    pub hand: (u32, bool, bool),
    pub hands: Vec<DemuxId>,
    reactions: Vec<(DemuxId, String)>,
    mute_request: Option<DemuxId>,
    speaker_ts: Option<u32>,
    forwarded: BTreeMap<DemuxId, u16>,
    heights: BTreeMap<DemuxId, u32>,
    vreq: Option<Vec<VideoRequest>>,
    ash: Option<u16>,
    on_demand: bool,
    max_rate: Option<DataRate>,
    next_hb: Option<u64>,
    next_proof: Option<u64>,
    next_hand: Option<u64>,
    mrp: MrpStream<Vec<u8>, (rtp::Header, pb::SfuToDevice)>,
    pub out: Vec<X>,
    pub fresh: Option<String>,
}

pub fn ring_of(era: &str) -> i64 {
    use sha2::Digest;
    if era.len() == 16 && era.bytes().all(|b| b.is_ascii_hexdigit()) {
        let v = era.chars().fold(0u64, |a, c| a * 16 + c.to_digit(16).unwrap() as u64);
        return if v == 0 { -1 } else { v as i64 };
    }
    i64::from_le_bytes(sha2::Sha256::digest(era.as_bytes())[..8].try_into().unwrap())
}
pub fn rates_for(others: usize, screen: bool) -> SendRates {
    let k = |n| Some(DataRate::from_kbps(n));
    match others {
        0 => SendRates { min: None, start: None, max: k(1) },
        _ if screen => SendRates { min: k(500), start: k(1000), max: k(2000) },
        1..=7 => SendRates { min: None, start: None, max: k(1000) },
        _ => SendRates { min: None, start: None, max: k(671) },
    }
}

impl M {
    pub fn new(o: &Opts, cache: Option<Cache>, first_secret: [u8; 32]) -> M {
        M {
            link: o.link,
            me: o.me.then(|| user(ME)),
            cache,
            now: clock::vx_now_ns(),
            seq: 0,
            later: vec![],
            stopped: false,
            conn: ConnectionState::NotConnected,
            join: JoinState::NotJoined(o.ring.map(|r| r.into())),
            waiting_dhe: false,
            negotiated: false,
            failed_dhe: false,
            sfu: false,
            devs: vec![],
            slots: vec![],
            stayed: BTreeSet::new(),
            members: BTreeSet::new(),
            pend: (0, BTreeSet::new()),
            last_peek: None,
            known: BTreeSet::new(),
            req: if o.link { Req::Never } else { Req::Waiting },
            ctx: g::Ctx::new(Secret::from(first_secret)),
            rotation: None,
            hint: None,
            secrets: [first_secret.to_vec()].into_iter().collect(),
            pending_keys: vec![],
            rates: SendRates::default(),
            over: None,
            hb: HeartbeatState::default(),
            ring: Ring::Unknown,
            busy: false,
            hand: (0, false, false),
            hands: vec![],
            reactions: vec![],
            mute_request: None,
            speaker_ts: None,
            forwarded: BTreeMap::new(),
            heights: BTreeMap::new(),
            vreq: None,
            ash: None,
            on_demand: false,
            max_rate: Some(DataRate::from_mbps(20)),
            next_hb: None,
            next_proof: None,
            next_hand: None,
            mrp: MrpStream::with_capacity_limit(64),
            out: vec![],
            fresh: None,
        }
    }
    fn ev(&mut self, e: Ev) {
        self.out.push(X::Ev(e));
    }
    fn sys(&self) -> SystemTime {
        SystemTime::UNIX_EPOCH + Duration::from_secs(1_700_000_000) + Duration::from_nanos(self.now)
    }
    fn changed(&mut self, why: String) {
        self.out.push(X::Devices(self.devs.clone(), why));
    }
    fn at(&mut self, after: u64, t: Task) {
        self.later.push((self.now + after, self.seq, t));
        self.seq += 1;
    }
    pub fn dev(&mut self, id: DemuxId) -> Option<&mut Dev> {
        self.devs.iter_mut().find(|d| d.id == id)
    }
    pub fn local(&self) -> Option<DemuxId> {
        match self.join {
            JoinState::Pending(d) | JoinState::Joined(d) => Some(d),
            _ => None,
        }
    }
    pub fn joined(&self) -> bool {
        matches!(self.join, JoinState::Joined(_))
    }

    // ---- time ----
    pub fn pass(&mut self, ms: u64) {
        let end = self.now + ms * MS;
        loop {
            let k = (0..self.later.len()).min_by_key(|&i| (self.later[i].0, self.later[i].1));
            let Some(k) = k.filter(|&k| self.later[k].0 <= end) else { break };
            let (at, _, t) = self.later.remove(k);
            self.now = self.now.max(at);
            if self.stopped {
                continue;
            }
            match t {
                Task::Tick => self.tick(),
                Task::Rotate(s) => {
                    self.ctx.reset_send_ratchet(Secret::from(s));
                    let again = matches!(self.rotation, Some((_, true)));
                    self.rotation = None;
                    if again {
                        self.rotate();
                    }
                }
                Task::AskAgain => self.ask(0, true),
                Task::Close(why) => {
                    self.conn = ConnectionState::NotConnected;
                    self.ev(Ev::Conn(self.conn));
                    self.stopped = true;
                    self.ev(Ev::Ended(why));
                }
            }
        }
        self.now = end;
    }
    fn due(&self, t: Option<u64>) -> bool {
        t.is_some_and(|t| self.now >= t)
    }
    fn tick(&mut self) {
        self.ask(10 * S, false);
        if self.due(self.next_hb) {
            self.heartbeat();
            self.video_requests();
            self.on_demand = false;
            self.next_hb = Some(self.now + S);
        }
        if !self.link && self.due(self.next_proof) {
            self.ev(Ev::AskProof);
            self.next_proof = Some(self.now + 24 * 3600 * S);
        }
        if !self.reactions.is_empty() {
            let r = std::mem::take(&mut self.reactions);
            self.ev(Ev::Reactions(r));
        }
        if self.due(self.next_hand) && self.hand.2 {
            self.next_hand = Some(self.now + 500 * MS);
            self.send_hand();
        }
        if let Some(m) = self.mute_request.take() {
            self.ev(Ev::MuteRequest(m));
        }
        let joined = self.local().is_some();
        let mut sent = vec![];
        let _ = self.mrp.try_send_ack(|h| {
            if !joined {
                anyhow::bail!("not joined");
            }
            sent.push(pb::DeviceToSfu { mrp_header: Some(proto_header(&h)), ..Default::default() }.encode_to_vec());
            Ok(())
        });
        let now = clock_at(self.now);
        let _ = self.mrp.try_resend(now, |p| {
            if !joined {
                anyhow::bail!("not joined");
            }
            sent.push(p.clone());
            Ok(now + Duration::from_secs(1))
        });
        for s in sent {
            self.out.push(X::Rtp(101, 1, s));
        }
        self.at(200 * MS, Task::Tick);
    }

    // ---- who is in the call ----
    fn ask(&mut self, max_age: u64, again: bool) {
        let now = match self.req {
            Req::Waiting => false,
            Req::Never => true,
            Req::Requested { at, .. } => self.now > at + 5 * S,
            Req::Updated(at) => self.now >= at + max_age,
            Req::Failed(at) => self.now > at + 5 * S,
        };
        if now {
            self.ev(Ev::SfuPeek);
            self.req = Req::Requested { at: self.now, again: false };
        } else if again && let Req::Requested { at, .. } = self.req {
            self.req = Req::Requested { at, again: true };
        }
    }
    pub fn ask_soon(&mut self) {
        self.ask(0, true)
    }
    pub fn peeked(&mut self, r: Option<PeekInfo>) {
        let Some(p) = r else {
            self.req = Req::Failed(self.now);
            return;
        };
        let again = matches!(self.req, Req::Requested { again: true, .. });
        self.req = Req::Updated(self.now);
        let old = std::mem::take(&mut self.members);
        let new: BTreeSet<UserId> = p.devices.iter().filter_map(|d| d.user_id.clone()).collect();
        let pend = (p.pending_devices.len(), p.pending_devices.iter().filter_map(|d| d.user_id.clone()).collect());
        if self.last_peek.is_none() || old != new || pend != self.pend || self.last_peek.as_ref().map(|l| &l.era_id) != Some(&p.era_id) {
            self.ev(Ev::Peek(p.clone(), new.clone()));
        }
        if let (Some(local), true) = (self.local(), self.negotiated) {
            let had: BTreeSet<DemuxId> = self.devs.iter().map(|d| d.id).collect();
            let mut before: BTreeMap<DemuxId, Dev> = std::mem::take(&mut self.devs).into_iter().map(|d| (d.id, d)).collect();
            let present = p.devices.iter().any(|d| d.demux_id == local);
            for d in &p.devices {
                let Some(u) = d.user_id.clone().filter(|_| d.demux_id != local) else { continue };
                let known = before.remove(&d.demux_id).filter(|b| b.user == u);
                let fresh = Dev {
                    id: d.demux_id,
                    user: u,
                    keys: false,
                    hb: HeartbeatState::default(),
                    hb_ts: None,
                    muting: BTreeSet::new(),
                    speaker: None,
                    added: self.sys(),
                    leaving: false,
                    forwarding: None,
                    allocated: 0,
                    decoded: None,
                    higher: false,
                };
                self.devs.push(known.unwrap_or(fresh));
            }
            let have: BTreeSet<DemuxId> = self.devs.iter().map(|d| d.id).collect();
            let added: BTreeSet<DemuxId> = have.difference(&had).copied().collect();
            if had != have {
                if self.sfu {
                    for s in &mut self.slots {
                        if s.is_some_and(|d| !have.contains(&d)) {
                            self.stayed.remove(&s.unwrap());
                            *s = None;
                        }
                    }
                    // which new device takes which place is left open
                    let mut n = added.iter();
                    for s in &mut self.slots {
                        if s.is_none() {
                            *s = n.next().copied();
                        }
                    }
                    self.slots.extend(n.map(|d| Some(*d)));
                }
                self.changed("DemuxIdsChanged".into());
            }
            if present && matches!(self.join, JoinState::Pending(_)) {
                self.set_join(JoinState::Joined(local));
            }
            let users: BTreeSet<UserId> = self.devs.iter().filter(|d| added.contains(&d.id)).map(|d| d.user.clone()).collect();
            if !users.is_empty() {
                let (rc, s) = self.ctx.advance_send_ratchet();
                self.key_out(users.clone(), rc, &s[..]);
                if let Some((s, _)) = self.rotation {
                    self.key_out(users, 0, &s);
                }
            }
            if old.difference(&new).next().is_some() {
                self.rotate();
            }
            for (u, d, rc, s) in std::mem::take(&mut self.pending_keys) {
                self.key_in(u, d, rc, s);
            }
            if present {
                let screen = self.hb.sharing_screen.unwrap_or(false);
                self.set_rates(rates_for(have.len(), screen));
            }
            if !have.is_empty() && matches!(self.ring, Ring::Sent(_)) {
                self.ring = Ring::Not;
            }
        }
        self.last_peek = Some(p);
        self.members = new;
        self.pend = pend;
        if again {
            self.ask_soon();
        }
    }
    fn set_rates(&mut self, r: SendRates) {
        let r = self.over.clone().unwrap_or(r);
        if r != self.rates {
            self.ev(Ev::Rates(r.clone()));
            self.rates = r;
        }
    }
    fn set_join(&mut self, j: JoinState) {
        self.join = j;
        self.ev(Ev::Join(j));
    }

    // ---- media keys ----
    fn rotate(&mut self) {
        match &mut self.rotation {
            Some((_, again)) => *again = true,
            None => {
                let Some(s) = self.hint.take() else {
                    self.fresh = Some("a departure did not lead to a new key".into());
                    return;
                };
                if !self.secrets.insert(s.to_vec()) {
                    self.fresh = Some(format!("the new key {} has been used before", hex::encode(s)));
                }
                if self.local().is_some() {
                    let users = self.devs.iter().map(|d| d.user.clone()).collect();
                    self.key_out(users, 0, &s);
                }
                self.rotation = Some((s, false));
                self.at(5 * S, Task::Rotate(s));
            }
        }
    }
    fn to_all(&mut self, mut users: BTreeSet<UserId>, msg: sig::CallMessage, key: bool) {
        let own = self.me.clone().filter(|m| users.remove(m));
        let send = |to: UserId, msg: &sig::CallMessage| Ev::Send { to, msg: msg.clone(), urgency: 0 };
        if !self.link && users.len() > 1 {
            self.ev(Ev::Group { msg: msg.clone(), urgency: 0, to: users });
        } else {
            let adhoc = match &self.cache {
                Some(c) if self.link && key => c.0.iter().next_back().and_then(|(exp, m)| {
                    let to: Option<BTreeMap<UserId, Vec<u8>>> = users.iter().map(|u| m.get(u).map(|e| (u.clone(), e.clone()))).collect();
                    to.map(|to| Ev::Adhoc { msg: msg.clone(), urgency: 0, expiration: *exp, to })
                }),
                _ => None,
            };
            match adhoc {
                Some(e) => self.ev(e),
                None => {
                    for u in users {
                        self.ev(send(u, &msg));
                    }
                }
            }
        }
        if let Some(own) = own {
            self.ev(send(own, &msg));
        }
    }
    fn key_out(&mut self, users: BTreeSet<UserId>, rc: u8, secret: &[u8]) {
        if users.is_empty() {
            return;
        }
        let Some(local) = self.local() else { return };
        let m = pb::DeviceToDevice {
            group_id: Some(GROUP.to_vec()),
            media_key: Some(pb::device_to_device::MediaKey {
                demux_id: Some(local),
                ratchet_counter: Some(rc as u32),
                secret: Some(secret.to_vec()),
            }),
            ..Default::default()
        };
        self.to_all(users, sig::CallMessage { group_call_message: Some(m), ..Default::default() }, true);
    }
    pub fn key_in(&mut self, u: UserId, d: DemuxId, rc: u8, secret: Vec<u8>) {
        if let Some(x) = self.devs.iter_mut().find(|x| x.id == d) {
            if x.user == u {
                let had = std::mem::replace(&mut x.keys, true);
                let s: [u8; 32] = secret[..].try_into().unwrap();
                self.ctx.add_receive_secret(d, rc, Secret::from(s));
                if !had {
                    self.changed(format!("MediaKeyReceived({d})"));
                }
            }
        } else {
            if self.pending_keys.is_empty() && !self.link {
                self.ev(Ev::AskMembers);
            }
            self.pending_keys.push((u, d, rc, secret));
        }
    }
    pub fn resend(&mut self) {
        if self.local().is_some() {
            let (rc, s) = self.ctx.send_state();
            let s = s.to_vec();
            let users = self.devs.iter().map(|d| d.user.clone()).collect();
            self.key_out(users, rc, &s);
        }
    }

    // ---- what goes out over RTP ----
    fn to_sfu(&mut self, m: pb::DeviceToSfu) {
        if self.local().is_some() {
            self.out.push(X::Rtp(101, 1, m.encode_to_vec()));
        }
    }
    fn broadcast(&mut self, m: pb::DeviceToDevice) {
        if let JoinState::Joined(d) = self.join {
            let plain = m.encode_to_vec();
            let mut b = vec![0; plain.len() + 21];
            if g::seal(&mut self.ctx, &plain, &mut b).is_ok() {
                self.out.push(X::Rtp(101, d.saturating_add(0xD), b));
            }
        }
    }
    pub fn reliably(&mut self, a: pb::device_to_sfu::AdminAction) {
        let joined = self.local().is_some();
        let mut m = pb::DeviceToSfu { admin_action: Some(a), ..Default::default() };
        let mut out = None;
        let until = clock_at(self.now) + Duration::from_secs(1);
        let _ = self.mrp.try_send(|h| {
            if !joined {
                anyhow::bail!("not joined");
            }
            m.mrp_header = Some(proto_header(&h));
            let b = m.encode_to_vec();
            out = Some(b.clone());
            Ok((b, until))
        });
        if let Some(b) = out {
            self.out.push(X::Rtp(101, 1, b));
        }
    }
    pub fn heartbeat(&mut self) {
        let h = pb::device_to_device::Heartbeat {
            audio_muted: self.hb.audio_muted,
            video_muted: self.hb.video_muted,
            presenting: self.hb.presenting,
            sharing_screen: self.hb.sharing_screen,
            muted_by_demux_id: self.hb.muted_by_demux_id,
        };
        self.broadcast(pb::DeviceToDevice { heartbeat: Some(h), ..Default::default() });
    }
    pub fn mute(&mut self, muted: bool, by: Option<DemuxId>) {
        if !muted {
            self.hb.muted_by_demux_id = None;
        } else if self.hb.audio_muted != Some(true) {
            self.hb.muted_by_demux_id = by;
        }
        self.hb.audio_muted = Some(muted);
        self.heartbeat();
    }
    pub fn share(&mut self, on: bool) {
        self.hb.sharing_screen = Some(on);
        self.heartbeat();
        self.set_rates(rates_for(self.devs.len(), on));
    }
    pub fn override_rates(&mut self, r: SendRates) {
        self.over = Some(r.clone());
        self.set_rates(r);
    }
    pub fn ask_mute(&mut self, target: DemuxId) {
        if let Some(own) = self.local() {
            if own == target {
                return;
            }
            if let Some(d) = self.dev(target)
                && d.hb.audio_muted == Some(false)
            {
                d.muting.insert(own);
            }
        }
        let m = pb::RemoteMuteRequest { target_demux_id: Some(target) };
        self.broadcast(pb::DeviceToDevice { remote_mute_request: Some(m), ..Default::default() });
    }
    pub fn data_mode(&mut self, m: DataMode) {
        self.max_rate = Some(match m {
            DataMode::Low => DataRate::from_kbps(500),
            DataMode::Normal => DataRate::from_mbps(20),
            DataMode::Custom { max_group_call_receive_rate: r, .. } => r,
        });
        self.on_demand();
    }
    pub fn request_video(&mut self, r: Vec<VideoRequest>, ash: u16) {
        self.vreq = Some(r);
        self.ash = Some(ash);
        self.on_demand();
    }
    fn on_demand(&mut self) {
        if !self.on_demand {
            self.video_requests();
            self.on_demand = true;
        }
    }
    fn video_requests(&mut self) {
        use pb::device_to_sfu::{VideoRequestMessage, video_request_message::VideoRequest as V};
        if let Some(v) = &self.vreq {
            let requests = v
                .iter()
                .filter(|r| self.devs.iter().any(|d| d.id == r.demux_id))
                .map(|r| V { demux_id: Some(r.demux_id), height: Some(r.height.min(r.width) as u32) })
                .collect();
            let m = VideoRequestMessage {
                max_kbps: self.max_rate.map(|r| r.as_kbps() as u32),
                requests,
                active_speaker_height: self.ash.map(|h| h as u32),
            };
            self.to_sfu(pb::DeviceToSfu { video_request: Some(m), ..Default::default() });
        }
    }
    pub fn decide(&mut self, u: &UserId, yes: bool) {
        use pb::device_to_sfu::{AdminAction, GenericAdminAction};
        let d = self.last_peek.as_ref().and_then(|p| p.pending_devices.iter().find(|d| d.user_id.as_ref() == Some(u)).map(|d| d.demux_id));
        if let Some(d) = d {
            let a = GenericAdminAction { target_demux_id: Some(d) };
            self.reliably(if yes { AdminAction::Approve(a) } else { AdminAction::Deny(a) });
        }
    }
    pub fn react(&mut self, v: String) {
        if (1..=256).contains(&v.len()) {
            self.broadcast(pb::DeviceToDevice { reaction: Some(pb::device_to_device::Reaction { value: Some(v) }), ..Default::default() });
        }
    }
    pub fn raise(&mut self, up: bool) {
        self.hand = (self.hand.0 + 1, up, true);
        self.send_hand();
    }
    fn send_hand(&mut self) {
        let r = pb::device_to_sfu::RaiseHand { raise: Some(self.hand.1), seqnum: Some(self.hand.0) };
        self.to_sfu(pb::DeviceToSfu { raise_hand: Some(r), ..Default::default() });
    }

    // ---- connecting, joining, leaving ----
    pub fn connect(&mut self) {
        if self.conn == ConnectionState::NotConnected {
            self.conn = ConnectionState::Connecting;
            self.ev(Ev::Conn(self.conn));
            self.next_hb = Some(self.now);
            self.next_hand = Some(self.now);
            if !self.link {
                self.ev(Ev::AskProof);
                self.next_proof = Some(self.now + 24 * 3600 * S);
                self.ev(Ev::AskMembers);
            }
            self.tick();
        }
    }
    pub fn join(&mut self) {
        let JoinState::NotJoined(ring) = self.join else { return };
        if self.busy {
            self.end(CallEndReason::CallManagerIsBusy);
            return;
        }
        self.busy = true;
        self.set_join(JoinState::Joining);
        if let (Some(r), Some(me)) = (ring, self.me.clone()) {
            let m = sig::call_message::RingResponse {
                group_id: Some(GROUP.to_vec()),
                ring_id: Some(r.into()),
                r#type: Some(sig::call_message::ring_response::Type::Accepted.into()),
            };
            self.ev(Ev::Send { to: me, msg: sig::CallMessage { ring_response: Some(m), ..Default::default() }, urgency: 1 });
        }
        if !self.link {
            self.ev(Ev::AskProof);
            self.next_proof = Some(self.now + 24 * 3600 * S);
        }
        self.waiting_dhe = true;
        self.negotiated = false;
        self.failed_dhe = false;
        self.ev(Ev::SfuJoin([0; 32]));
    }
    pub fn joined_at_sfu(&mut self, state: JoinState, creator: Option<UserId>, era: &str, good_key: bool) {
        if self.conn == ConnectionState::Connecting {
            if self.waiting_dhe {
                self.waiting_dhe = false;
                self.negotiated = good_key;
                self.failed_dhe = !good_key;
            }
            if !self.negotiated {
                self.end(CallEndReason::FailedToNegotiatedSrtpKeys);
                return;
            }
            self.set_rates(rates_for(0, false));
            self.sfu = true;
        }
        if self.join == JoinState::Joining {
            self.ask_soon();
            self.join = state;
            if let Some(p) = self.last_peek.clone() {
                self.peeked(Some(p));
                if self.devs.is_empty() {
                    self.changed("DemuxIdsChanged".into());
                }
            }
            self.ev(Ev::Join(self.join));
            if let Some(c) = creator {
                let before = std::mem::replace(&mut self.ring, if self.me == Some(c) { Ring::Permitted(ring_of(era)) } else { Ring::Not });
                if before == Ring::Wants {
                    self.ring();
                }
            }
        }
    }
    pub fn ring(&mut self) {
        match self.ring {
            Ring::Permitted(r) => {
                self.ring_message(r, sig::call_message::ring_intention::Type::Ring);
                self.ring = if self.devs.is_empty() { Ring::Sent(r) } else { Ring::Not };
            }
            Ring::Unknown => self.ring = Ring::Wants,
            _ => {}
        }
    }
    fn ring_message(&mut self, r: i64, t: sig::call_message::ring_intention::Type) {
        let m = sig::call_message::RingIntention { group_id: Some(GROUP.to_vec()), ring_id: Some(r), r#type: Some(t.into()) };
        self.ev(Ev::Group { msg: sig::CallMessage { ring_intention: Some(m), ..Default::default() }, urgency: 1, to: BTreeSet::new() });
    }
    pub fn ring_known(&mut self, r: i64) {
        if let JoinState::NotJoined(None) = self.join {
            self.join = JoinState::NotJoined(Some(r.into()));
        }
    }
    pub fn leave(&mut self) {
        if let Ring::Sent(r) = self.ring {
            self.ring_message(r, sig::call_message::ring_intention::Type::Cancelled);
        }
        if matches!(self.join, JoinState::NotJoined(_)) {
            return;
        }
        if let Some(local) = self.local() {
            self.broadcast(pb::DeviceToDevice { leaving: Some(pb::device_to_device::Leaving::default()), ..Default::default() });
            let m = pb::DeviceToDevice {
                group_id: Some(GROUP.to_vec()),
                leaving: Some(pb::device_to_device::Leaving { demux_id: Some(local) }),
                ..Default::default()
            };
            self.to_all(self.members.clone(), sig::CallMessage { group_call_message: Some(m), ..Default::default() }, false);
            for _ in 0..2 {
                self.to_sfu(pb::DeviceToSfu { leave: Some(pb::device_to_sfu::LeaveMessage {}), ..Default::default() });
            }
        }
        self.busy = false;
        self.set_join(JoinState::NotJoined(None));
        self.next_hb = None;
        self.next_proof = None;
    }
    pub fn end(&mut self, why: CallEndReason) {
        if !matches!(self.join, JoinState::NotJoined(_)) {
            self.leave();
        }
        if self.conn != ConnectionState::NotConnected {
            self.at(20 * MS, Task::Close(why));
        }
    }
    pub fn ice(&mut self, i: Ice) {
        use ConnectionState as C;
        let up = matches!(i, Ice::Connected | Ice::Completed);
        let to = match self.conn {
            C::Connecting if matches!(i, Ice::Disconnected | Ice::Closed | Ice::Failed) => return self.end(CallEndReason::IceFailedWhileConnecting),
            C::Connecting | C::Reconnecting if up => C::Connected,
            C::Connected if matches!(i, Ice::Checking | Ice::Disconnected) => C::Reconnecting,
            _ if matches!(i, Ice::Failed | Ice::Closed) => return self.end(CallEndReason::IceFailedAfterConnected),
            _ => return,
        };
        self.conn = to;
        self.ev(Ev::Conn(to));
    }
    pub fn removed(&mut self) {
        self.end(if self.joined() { CallEndReason::RemovedFromCall } else { CallEndReason::DeniedRequestToJoinCall });
    }
    pub fn proof(&mut self, p: Vec<u8>) {
        self.ev(Ev::SfuProof(p));
        if self.req == Req::Waiting {
            self.req = Req::Never;
            self.ask_soon();
        }
    }
    pub fn set_members(&mut self, m: Vec<UserId>) {
        let set: BTreeSet<UserId> = m.iter().cloned().collect();
        if set != self.known {
            self.known = set;
            self.ev(Ev::SfuMembers(m));
            self.ask_soon();
        }
    }

    // ---- what comes in ----
    pub fn frame(&mut self, from: DemuxId, ts: u32, frame: &[u8]) {
        let mut b = vec![0; frame.len().saturating_sub(21)];
        if g::open(&mut self.ctx, from, frame, &mut b).is_ok()
            && let Ok(m) = pb::DeviceToDevice::decode(&b[..])
        {
            if let Some(h) = m.heartbeat {
                self.heard(from, ts, h);
            }
            if m.leaving.is_some() {
                self.leaving(None, from);
            }
            if let Some(r) = m.reaction {
                let v = r.value.unwrap_or_default();
                if (1..=256).contains(&v.len()) {
                    self.reactions.push((from, v));
                }
            }
            if let Some(t) = m.remote_mute_request.and_then(|m| m.target_demux_id)
                && let Some(own) = self.local()
            {
                if own == t {
                    if self.mute_request.is_none() && from != own {
                        self.mute_request = Some(from);
                    }
                } else if let Some(d) = self.dev(t)
                    && d.hb.audio_muted != Some(true)
                {
                    d.muting.insert(from);
                }
            }
        }
        if self.dev(from).is_none() {
            self.ask_soon();
        }
    }
    fn heard(&mut self, from: DemuxId, ts: u32, h: pb::device_to_device::Heartbeat) {
        let Some(d) = self.dev(from) else { return };
        if ts <= d.hb_ts.unwrap_or(0) {
            return;
        }
        d.hb_ts = Some(ts);
        let h = HeartbeatState {
            audio_muted: h.audio_muted,
            video_muted: h.video_muted,
            presenting: h.presenting,
            sharing_screen: h.sharing_screen,
            muted_by_demux_id: h.muted_by_demux_id,
        };
        if d.hb == h {
            return;
        }
        if h.video_muted == Some(true) {
            d.decoded = None;
            d.higher();
        }
        if h.audio_muted == Some(false) && d.hb.audio_muted != Some(false) {
            d.muting.clear();
        }
        let by = h
            .muted_by_demux_id
            .filter(|s| d.hb.muted_by_demux_id != Some(*s) && h.audio_muted == Some(true) && d.hb.audio_muted == Some(false) && d.muting.contains(s));
        d.hb = h;
        if let Some(by) = by {
            self.ev(Ev::ObservedMute(by, from));
        }
        self.changed(format!("HeartbeatStateChanged({from})"));
    }
    pub fn leaving(&mut self, who: Option<UserId>, id: DemuxId) {
        if let Some(d) = self.dev(id)
            && !d.leaving
            && who.is_none_or(|w| w == d.user)
        {
            d.leaving = true;
            self.ask_soon();
            self.at(2 * S, Task::AskAgain);
        }
    }
    pub fn signal(&mut self, from: UserId, m: pb::DeviceToDevice) {
        if let Some(pb::device_to_device::MediaKey { demux_id: Some(d), ratchet_counter: Some(rc), secret: Some(s) }) = m.media_key {
            if let Ok(rc) = u8::try_from(rc) {
                if s.len() != 32 {
                    return;
                }
                self.key_in(from, d, rc, s);
            }
            if self.dev(d).is_none() {
                self.ask_soon();
            }
        } else if let (Some(gid), Some(pb::device_to_device::Leaving { demux_id: Some(d) })) = (m.group_id, m.leaving)
            && gid == GROUP
        {
            self.leaving(Some(from), d);
        }
    }
    /// `known`: the users the resolver can name
    pub fn sfu(&mut self, h: rtp::Header, m: pb::SfuToDevice, resolve: &dyn Fn(&str) -> Option<UserId>) {
        if let Some(mh) = &m.mrp_header {
            let mh = MrpHeader { seqnum: mh.seqnum, ack_num: mh.ack_num, num_packets: mh.num_packets };
            if let Ok(v) = self.mrp.receive_and_merge(&mh, (h, m)) {
                for (h, m) in v {
                    match &m.content {
                        Some(c) => {
                            if let Ok(m) = pb::SfuToDevice::decode(&c[..]) {
                                self.sfu_plain(h, m, resolve);
                            }
                        }
                        None => self.sfu_plain(h, m, resolve),
                    }
                }
            }
        } else {
            self.sfu_plain(h, m, resolve);
        }
    }
    fn sfu_plain(&mut self, h: rtp::Header, m: pb::SfuToDevice, resolve: &dyn Fn(&str) -> Option<UserId>) {
        if let Some(d) = m.speaker.and_then(|s| s.demux_id) {
            self.speaking(h.timestamp, d);
        }
        if let Some(j) = m.device_joined_or_left {
            match j.peek_info {
                Some(p) => {
                    let list = |v: &Vec<pb::sfu_to_device::peek_info::PeekDeviceInfo>| -> Option<Vec<_>> {
                        v.iter()
                            .map(|d| {
                                Some(ringrtc::lite::sfu::PeekDeviceInfo {
                                    demux_id: d.demux_id?,
                                    user_id: d.opaque_user_id.as_deref().and_then(resolve),
                                })
                            })
                            .collect()
                    };
                    match (list(&p.devices), list(&p.pending_devices)) {
                        (Some(devices), Some(pending_devices)) => self.peeked(Some(PeekInfo {
                            devices,
                            pending_devices,
                            creator: p.creator.as_deref().and_then(resolve),
                            era_id: p.era_id.clone(),
                            max_devices: p.max_devices,
                            call_link_state: None,
                        })),
                        _ => self.ask_soon(),
                    }
                }
                None => self.ask_soon(),
            }
        }
        if let Some(c) = m.current_devices {
            let f: BTreeMap<DemuxId, u16> = c.demux_ids_with_video.iter().zip(&c.allocated_heights).map(|(d, h)| (*d, *h as u16)).collect();
            if f != self.forwarded {
                for d in &mut self.devs {
                    d.forwarding = Some(f.contains_key(&d.id));
                    d.allocated = f.get(&d.id).copied().unwrap_or(0);
                    if !f.contains_key(&d.id) {
                        d.decoded = None;
                    }
                    d.higher();
                }
                self.forwarded = f;
                self.changed("ForwardedVideosChanged".into());
            }
        }
        if m.removed.is_some() {
            self.removed();
        }
        if let Some(r) = m.raised_hands
            && let Some(n) = r.target_seqnum
        {
            let tell = if n != 0 {
                n >= self.hand.0 && {
                    self.hand.0 = n;
                    std::mem::take(&mut self.hand.2) || self.hands != r.demux_ids
                }
            } else {
                self.hand.0 == 0 && self.hands != r.demux_ids
            };
            if tell {
                self.hands = r.demux_ids;
                self.ev(Ev::Hands(self.hands.clone()));
            }
        }
    }
    fn speaking(&mut self, ts: u32, id: DemuxId) {
        if self.speaker_ts.is_some_and(|t| ts <= t) {
            return;
        }
        self.speaker_ts = Some(ts);
        let now = self.sys();
        // the last of those who spoke latest
        let latest = self.devs.iter().max_by_key(|d| d.speaker).filter(|d| d.speaker.is_some()).map(|d| d.id);
        if let Some(d) = self.dev(id)
            && latest != Some(id)
        {
            d.speaker = Some(now);
            self.changed(format!("SpeakerTimeChanged({id})"));
        }
    }
    pub fn height(&mut self, id: DemuxId, h: u32) {
        if self.heights.insert(id, h) == Some(h) {
            return;
        }
        if let Some(d) = self.dev(id)
            && d.decoded != Some(h)
            && d.hb.video_muted != Some(true)
        {
            let was = d.higher;
            d.decoded = Some(h);
            d.higher();
            if d.higher != was {
                self.changed("HigherResolutionPendingChanged".into());
            }
        }
    }
}

fn proto_header(h: &MrpHeader) -> pb::MrpHeader {
    pb::MrpHeader { seqnum: h.seqnum, ack_num: h.ack_num, num_packets: h.num_packets }
}
fn clock_at(ns: u64) -> std::time::Instant {
    let now = clock::vx_now();
    let at = clock::vx_now_ns();
    if ns >= at { now + Duration::from_nanos(ns - at) } else { now - Duration::from_nanos(at - ns) }
}
