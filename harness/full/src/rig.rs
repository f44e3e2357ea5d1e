// A group call client with every outward call recorded, on the virtual clock; decides nothing.
use crate::support::*;
use ringrtc::protobuf::{group_call as pb, signaling::CallMessage};
use prost::Message;
use ringrtc::{
    common::{CallEndReason, actor as clock},
    core::{
        call_mutex::CallMutex,
        endorsements::{EndorsementUpdateResultRef, EndorsementsCache},
        group_call::{self as gc, *, vx_probe as g},
    },
    lite::{
        http::ResponseStatus,
        sfu::{DemuxId, GroupMember, MemberResolver, MembershipProof, ObfuscatedResolver, PeekDeviceInfo, PeekInfo, PeekResultCallback, UserId},
    },
    webrtc::{
        media::VideoTrack,
        peer_connection::{AudioLevel, ReceivedAudioLevel, SendRates},
        peer_connection_observer::NetworkRoute,
        rtp,
    },
};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex},
    time::Duration,
};

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    AskProof,
    AskMembers,
    Send { to: UserId, msg: CallMessage, urgency: i32 },
    Group { msg: CallMessage, urgency: i32, to: BTreeSet<UserId> },
    Adhoc { msg: CallMessage, urgency: i32, expiration: u64, to: BTreeMap<UserId, Vec<u8>> },
    Conn(ConnectionState),
    Join(JoinState),
    Rates(SendRates),
    Devices(Vec<RemoteDeviceState>, String),
    Peek(PeekInfo, BTreeSet<UserId>),
    Reactions(Vec<(DemuxId, String)>),
    Hands(Vec<DemuxId>),
    MuteRequest(DemuxId),
    ObservedMute(DemuxId, DemuxId),
    Ended(CallEndReason),
    Endorsed(String),
    SfuJoin([u8; 32]),
    SfuPeek,
    SfuProof(Vec<u8>),
    SfuMembers(Vec<UserId>),
    /// payload type, sequence number, timestamp, source
    Rtp((u8, u16, u32, u32), Vec<u8>),
    Noise,
}

pub type Log = Arc<Mutex<Vec<Ev>>>;
#[derive(Clone)]
struct Obs(Log);
impl Obs {
    fn put(&self, e: Ev) {
        self.0.lock().unwrap().push(e)
    }
}
fn urgency(u: SignalingMessageUrgency) -> i32 {
    match u {
        SignalingMessageUrgency::Droppable => 0,
        SignalingMessageUrgency::HandleImmediately => 1,
    }
}
impl Observer for Obs {
    fn request_membership_proof(&self, _: u32) {
        self.put(Ev::AskProof)
    }
    fn request_group_members(&self, _: u32) {
        self.put(Ev::AskMembers)
    }
    fn send_signaling_message(&mut self, to: UserId, msg: CallMessage, u: SignalingMessageUrgency) {
        self.put(Ev::Send { to, msg, urgency: urgency(u) })
    }
    fn send_signaling_message_to_group(&mut self, group: GroupId, msg: CallMessage, u: SignalingMessageUrgency, to: HashSet<UserId>) {
        assert_eq!(group, GROUP.to_vec(), "sent to another group");
        self.put(Ev::Group { msg, urgency: urgency(u), to: to.into_iter().collect() })
    }
    fn send_signaling_message_to_adhoc_group(&mut self, msg: CallMessage, u: SignalingMessageUrgency, expiration: u64, to: HashMap<UserId, Vec<u8>>) {
        self.put(Ev::Adhoc { msg, urgency: urgency(u), expiration, to: to.into_iter().collect() })
    }
    fn handle_connection_state_changed(&self, _: u32, s: ConnectionState) {
        self.put(Ev::Conn(s))
    }
    fn handle_network_route_changed(&self, _: u32, _: NetworkRoute) {
        self.put(Ev::Noise)
    }
    fn handle_join_state_changed(&self, _: u32, s: JoinState) {
        self.put(Ev::Join(s))
    }
    fn handle_send_rates_changed(&self, _: u32, r: SendRates) {
        self.put(Ev::Rates(r))
    }
    fn handle_remote_devices_changed(&self, _: u32, d: &[RemoteDeviceState], why: RemoteDevicesChangedReason) {
        self.put(Ev::Devices(d.to_vec(), format!("{why:?}")))
    }
    fn handle_peek_changed(&self, _: u32, p: &PeekInfo, joined: &HashSet<UserId>) {
        self.put(Ev::Peek(p.clone(), joined.iter().cloned().collect()))
    }
    fn handle_incoming_video_track(&mut self, _: u32, _: DemuxId, _: VideoTrack) {
        self.put(Ev::Noise)
    }
    fn handle_speaking_notification(&mut self, _: u32, _: SpeechEvent) {
        self.put(Ev::Noise)
    }
    fn handle_audio_levels(&self, _: u32, _: AudioLevel, _: Vec<ReceivedAudioLevel>) {
        self.put(Ev::Noise)
    }
    fn handle_low_bandwidth_for_video(&self, _: u32, _: bool) {
        self.put(Ev::Noise)
    }
    fn handle_reactions(&self, _: u32, r: Vec<Reaction>) {
        self.put(Ev::Reactions(r.into_iter().map(|r| (r.demux_id, r.value)).collect()))
    }
    fn handle_raised_hands(&self, _: u32, h: Vec<DemuxId>) {
        self.put(Ev::Hands(h))
    }
    fn handle_remote_mute_request(&self, _: u32, by: DemuxId) {
        self.put(Ev::MuteRequest(by))
    }
    fn handle_observed_remote_mute(&self, _: u32, by: DemuxId, who: DemuxId) {
        self.put(Ev::ObservedMute(by, who))
    }
    fn handle_rtc_stats_report(&self, _: String) {
        self.put(Ev::Noise)
    }
    fn handle_ended(&self, _: u32, reason: CallEndReason, _: ringrtc::core::call_summary::CallSummary) {
        self.put(Ev::Ended(reason))
    }
    fn handle_endorsements_update(&self, _: u32, u: EndorsementUpdateResultRef) {
        self.put(Ev::Endorsed(match u {
            Ok((t, m)) => format!("ok {t:?} {:?}", m.keys().collect::<BTreeSet<_>>()),
            Err(e) => format!("{e:?}"),
        }))
    }
}

type Peeks = Arc<Mutex<Vec<PeekResultCallback>>>;
struct Sfu(Log, Peeks);
impl SfuClient for Sfu {
    fn join(&mut self, _: &str, _: &str, k: [u8; 32], _: Client) {
        self.0.lock().unwrap().push(Ev::SfuJoin(k))
    }
    fn peek(&mut self, f: PeekResultCallback) {
        self.0.lock().unwrap().push(Ev::SfuPeek);
        self.1.lock().unwrap().push(f);
    }
    fn set_membership_proof(&mut self, p: MembershipProof) {
        self.0.lock().unwrap().push(Ev::SfuProof(p))
    }
    fn set_group_members(&mut self, m: Vec<GroupMember>) {
        self.0.lock().unwrap().push(Ev::SfuMembers(m.into_iter().map(|m| m.user_id).collect()))
    }
}

struct Hex;
impl MemberResolver for Hex {
    fn resolve(&self, s: &str) -> Option<UserId> {
        hex::decode(s).ok()
    }
    fn resolve_bytes(&self, b: &[u8]) -> Option<UserId> {
        Some(b.to_vec())
    }
}

pub const GROUP: &[u8] = b"a group of sixteen";
pub fn user(n: u64) -> UserId {
    vec![n as u8; 16]
}
pub const ME: u64 = 99;

#[derive(Clone)]
pub struct Opts {
    pub link: bool,
    pub me: bool,
    pub ring: Option<i64>,
    pub cache: Option<EndorsementsCache>,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { link: false, me: true, ring: None, cache: None }
    }
}

pub struct Rig {
    pub c: Client,
    pub log: Log,
    pub peeks: Peeks,
    pub busy: Arc<CallMutex<bool>>,
    /// the next timestamp the SFU and the peers send with
    pub clock: u32,
}

impl Rig {
    pub fn new(o: Opts) -> Rig {
        clock::vx_reset();
        let log: Log = Default::default();
        let peeks: Peeks = Default::default();
        let busy = Arc::new(CallMutex::new(false, "busy"));
        let c = g::start(
            g::Start {
                link: o.link,
                me: o.me.then(|| user(ME)),
                busy: busy.clone(),
                ring: o.ring.map(|r| r.into()),
                cache: o.cache,
                group: GROUP.to_vec(),
                id: 1,
            },
            Box::new(Sfu(log.clone(), peeks.clone())),
            Box::new(Obs(log.clone())),
            ObfuscatedResolver::new(Arc::new(Hex), None, None),
        );
        clock::vx_run();
        let l = log.clone();
        g::sink(&c, Box::new(move |h, p| l.lock().unwrap().push(Ev::Rtp((h.pt, h.seqnum, h.timestamp, h.ssrc), p.to_vec()))));
        Rig { c, log, peeks, busy, clock: 1 }
    }
    pub fn take(&self) -> Vec<Ev> {
        clock::vx_run();
        std::mem::take(&mut *self.log.lock().unwrap())
    }
    /// one call of the interface, and everything it led to
    pub fn step(&self, f: impl FnOnce(&Client)) -> Vec<Ev> {
        f(&self.c);
        self.take()
    }
    pub fn pass(&self, ms: u64) -> Vec<Ev> {
        clock::vx_advance(Duration::from_millis(ms));
        self.take()
    }
    pub fn joined(&self, state: JoinState, creator: Option<UserId>, era: &str, server: [u8; 32]) -> Joined {
        Joined {
            sfu_info: SfuInfo {
                udp_addresses: vec!["1.2.3.4:5".parse().unwrap()],
                tcp_addresses: vec![],
                tls_addresses: vec![],
                hostname: None,
                ice_ufrag: "u".into(),
                ice_pwd: "p".into(),
            },
            local_demux_id: match state {
                JoinState::Joined(d) | JoinState::Pending(d) => d,
                _ => 0,
            },
            server_dhe_pub_key: server,
            hkdf_extra_info: vec![1, 2],
            creator,
            era_id: era.into(),
            join_state: state,
        }
    }
    /// connected and joined under demux id `me`
    pub fn enter(&self, me: DemuxId, pending: bool) -> Vec<Ev> {
        let mut e = self.step(|c| {
            c.connect();
            c.join()
        });
        let s = if pending { JoinState::Pending(me) } else { JoinState::Joined(me) };
        e.extend(self.step(|c| c.on_sfu_client_join_attempt_completed(Ok(self.joined(s, None, "era", server_key())))));
        e.extend(self.step(|c| g::ice(c, ringrtc::webrtc::peer_connection_observer::IceConnectionState::Connected)));
        e
    }
    /// the SFU answers the oldest open request
    pub fn answer(&self, r: Result<PeekInfo, u16>) -> Option<Vec<Ev>> {
        let f = {
            let mut p = self.peeks.lock().unwrap();
            if p.is_empty() {
                return None;
            }
            p.remove(0)
        };
        f(r.map_err(ResponseStatus::from));
        Some(self.take())
    }
    /// the SFU pushes who is in the call
    pub fn push(&mut self, p: &PeekInfo) -> Vec<Ev> {
        let m = pb::SfuToDevice {
            device_joined_or_left: Some(pb::sfu_to_device::DeviceJoinedOrLeft { peek_info: Some(as_proto(p)) }),
            ..Default::default()
        };
        self.from_sfu(&m)
    }
    pub fn from_sfu(&mut self, m: &pb::SfuToDevice) -> Vec<Ev> {
        let ts = self.clock;
        self.clock += 1;
        self.from_sfu_at(ts, m)
    }
    pub fn from_sfu_at(&self, ts: u32, m: &pb::SfuToDevice) -> Vec<Ev> {
        let h = rtp::Header { pt: 101, seqnum: ts as u16, timestamp: ts, ssrc: 1 };
        let b = m.encode_to_vec();
        self.step(|c| g::rtp_in(c, h, &b))
    }
    pub fn from_peer_at(&self, ts: u32, d: DemuxId, frame: &[u8]) -> Vec<Ev> {
        let h = rtp::Header { pt: 101, seqnum: ts as u16, timestamp: ts, ssrc: d.saturating_add(0xD) };
        self.step(|c| g::rtp_in(c, h, frame))
    }
    /// a media key arrives over signaling
    pub fn key_from(&self, u: u64, d: DemuxId, rc: u32, secret: &[u8]) -> Vec<Ev> {
        let m = pb::DeviceToDevice {
            group_id: Some(GROUP.to_vec()),
            media_key: Some(pb::device_to_device::MediaKey { demux_id: Some(d), ratchet_counter: Some(rc), secret: Some(secret.to_vec()) }),
            ..Default::default()
        };
        self.step(|c| c.on_signaling_message_received(user(u), m))
    }
    pub fn seen(&self) -> g::Seen {
        g::seen(&self.c).expect("state")
    }
}
impl Drop for Rig {
    fn drop(&mut self) {
        self.peeks.lock().unwrap().clear();
        g::forget(&self.c);
        clock::vx_reset();
    }
}

pub fn server_key() -> [u8; 32] {
    let mut k = [0u8; 32];
    k[0] = 9;
    k
}
/// (demux id, user); user None is somebody unknown
pub type Who = Vec<(DemuxId, Option<u64>)>;
pub fn peek(devices: &Who, pending: &Who, era: Option<&str>) -> PeekInfo {
    let list = |w: &Who| w.iter().map(|(d, u)| PeekDeviceInfo { demux_id: *d, user_id: u.map(user) }).collect();
    PeekInfo { devices: list(devices), pending_devices: list(pending), era_id: era.map(|e| e.into()), ..Default::default() }
}
pub fn as_proto(p: &PeekInfo) -> pb::sfu_to_device::PeekInfo {
    let list = |v: &Vec<PeekDeviceInfo>| {
        v.iter()
            .map(|d| pb::sfu_to_device::peek_info::PeekDeviceInfo { demux_id: Some(d.demux_id), opaque_user_id: d.user_id.as_ref().map(hex::encode) })
            .collect()
    };
    pb::sfu_to_device::PeekInfo {
        era_id: p.era_id.clone(),
        max_devices: p.max_devices,
        creator: p.creator.as_ref().map(hex::encode),
        devices: list(&p.devices),
        pending_devices: list(&p.pending_devices),
        call_link_state: None,
    }
}
/// a random set of devices in a random order: up to `most`, of up to four users
pub fn crowd(rng: &mut Rng, ids: &[DemuxId], most: u64) -> Who {
    let n = rng.below(most + 1);
    let mut w: Who = vec![];
    for _ in 0..n {
        let d = *rng.pick(ids);
        if w.iter().all(|x| x.0 != d) {
            // mostly a device keeps its user
            let u = if rng.chance(1, 12) { None } else if rng.chance(1, 12) { Some(1 + rng.below(4)) } else { Some(1 + (d as u64 / 16) % 4) };
            w.push((d, u));
        }
    }
    w
}
