//! One real call manager with an application, a signalling service and peer connections that only note down what
//! they are told.  Nothing here decides anything: it turns histories of operations into lists of events.
use ringrtc::{
    common::{ApplicationEvent, CallConfig, CallDirection, CallEndReason, CallId, CallMediaType, DataMode, DeviceId, Result, actor},
    core::{
        call::Call,
        call_manager::CallManager,
        call_summary::CallSummary,
        connection::{Connection, ConnectionType},
        group_call,
        platform::{Platform, PlatformItem},
        signaling,
    },
    lite::{
        http,
        sfu::{self, DemuxId, PeekInfo, UserId},
    },
    protobuf,
    webrtc::{
        self,
        media::{MediaStream, VideoTrack},
        peer_connection::{AudioLevel, PeerConnection},
        peer_connection_observer::{IceConnectionState, NetworkAdapterType, NetworkRoute, PeerConnectionObserverTrait, TransportProtocol},
        rtp,
        rtp_observer::RtpObserverTrait,
        sim::peer_connection::{RffiPeerConnection, vx_probe},
    },
};
use std::{
    collections::{BTreeSet, HashMap, HashSet},
    sync::{Arc, Mutex, atomic::Ordering},
    time::Duration,
};

pub use vx_probe::Note;
pub type Msg = protobuf::rtp_data::Message;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Start { peer: u8, id: u64, out: bool, video: bool },
    App { peer: u8, id: u64, what: String },
    Ended { peer: u8, id: u64, why: String },
    Expired { peer: u8, id: u64, age: u64 },
    Concluded { peer: u8, id: u64 },
    Route { peer: u8, relayed: (bool, bool) },
    Levels { peer: u8, captured: u16, received: u16 },
    LowBandwidth { peer: u8, recovered: bool },
    Connect { peer: u8, ctx: u64, media: u64 },
    Disconnect { ctx: u64 },
    NewConnection { n: usize, id: u64, device: u32, kind: &'static str },
    NewMedia { n: usize, media: u64 },
    Offer { peer: u8, id: u64, video: bool, max: Option<u64> },
    Answer { peer: u8, id: u64, device: u32, max: Option<u64> },
    Ice { peer: u8, id: u64, device: Option<u32>, cands: Vec<String> },
    Hangup { peer: u8, id: u64, what: String },
    Busy { peer: u8, id: u64 },
    /// told to the peer connection
    Pc { n: usize, what: Note },
    Rtp { n: usize, timestamp: u32, message: Box<Msg> },
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    Start,
    Event,
    Offer,
    Answer,
    Ice,
    Hangup,
    Busy,
    Create,
    Connect,
    Media,
}
pub const FAULTS: [Fault; 10] = [Fault::Start, Fault::Event, Fault::Offer, Fault::Answer, Fault::Ice, Fault::Hangup, Fault::Busy, Fault::Create, Fault::Connect, Fault::Media];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Hang {
    Normal,
    Accepted(u32),
    Declined(u32),
    Busy(u32),
    Permission(Option<u32>),
}
impl Hang {
    pub fn real(self) -> signaling::Hangup {
        match self {
            Hang::Normal => signaling::Hangup::Normal,
            Hang::Accepted(d) => signaling::Hangup::AcceptedOnAnotherDevice(d),
            Hang::Declined(d) => signaling::Hangup::DeclinedOnAnotherDevice(d),
            Hang::Busy(d) => signaling::Hangup::BusyOnAnotherDevice(d),
            Hang::Permission(d) => signaling::Hangup::NeedPermission(d),
        }
    }
    pub fn of(h: signaling::Hangup) -> Hang {
        match h {
            signaling::Hangup::Normal => Hang::Normal,
            signaling::Hangup::AcceptedOnAnotherDevice(d) => Hang::Accepted(d),
            signaling::Hangup::DeclinedOnAnotherDevice(d) => Hang::Declined(d),
            signaling::Hangup::BusyOnAnotherDevice(d) => Hang::Busy(d),
            signaling::Hangup::NeedPermission(d) => Hang::Permission(d),
        }
    }
    /// on the wire
    pub fn wire(self) -> (i32, Option<u32>) {
        match self {
            Hang::Normal => (0, None),
            Hang::Accepted(d) => (1, Some(d)),
            Hang::Declined(d) => (2, Some(d)),
            Hang::Busy(d) => (3, Some(d)),
            Hang::Permission(d) => (4, d),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Cand {
    Add(String),
    Remove(String),
    Junk,
}
impl Cand {
    fn real(&self) -> signaling::IceCandidate {
        match self {
            Cand::Add(s) => signaling::IceCandidate::from_v3_sdp(s.clone()).unwrap(),
            Cand::Remove(a) => signaling::IceCandidate::from_removed_address(a.parse().unwrap()).unwrap(),
            Cand::Junk => signaling::IceCandidate::new(vec![0xFF, 1, 2]),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bad {
    /// nothing wrong
    No,
    /// no description inside
    Empty,
    /// a key of the wrong length
    ShortKey,
    /// no key at all
    NoKey,
}
fn v4(max: Option<u64>, bad: Bad, device: u32) -> protobuf::signaling::ConnectionParametersV4 {
    protobuf::signaling::ConnectionParametersV4 {
        public_key: match bad {
            Bad::NoKey => None,
            Bad::ShortKey => Some(vec![7; 31]),
            _ => Some(x25519_dalek::PublicKey::from(&x25519_dalek::StaticSecret::from([device as u8 | 1; 32])).as_bytes().to_vec()),
        },
        ice_ufrag: Some("ufrag".into()),
        ice_pwd: Some("pwd".into()),
        receive_video_codecs: vec![],
        encode_only_video_codecs: vec![],
        decode_only_video_codecs: vec![],
        max_bitrate_bps: max,
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Call { peer: u8, id: u64, video: bool, local: u32 },
    Proceed { id: u64, ctx: u64, low: bool, levels_ms: Option<u64> },
    Accept { id: u64 },
    Drop { id: u64 },
    HangUp,
    Reset,
    Sent { id: u64 },
    SendFailed { id: u64 },
    Offer { peer: u8, id: u64, age: u64, from: u32, to: u32, video: bool, max: Option<u64>, bad: Bad },
    Answer { peer: u8, id: u64, from: u32, max: Option<u64>, bad: Bad },
    Ice { peer: u8, id: u64, from: u32, cands: Vec<Cand> },
    Hangup { peer: u8, id: u64, from: u32, what: Hang },
    Busy { peer: u8, id: u64, from: u32 },
    // the peer connection reports
    IceState { n: usize, what: u8 },
    LocalIce { n: usize, cand: Cand },
    Route { n: usize, local: bool, remote: bool },
    Rtp { n: usize, pt: u8, ssrc: u32, timestamp: u32, payload: Vec<u8> },
    Media { n: usize },
    // the application, on the active call's connection
    Sender { n: usize, video: Option<bool>, sharing: Option<bool>, audio: Option<bool> },
    Mode { n: usize, low: bool },
    // the world
    Time(u64),
    Bandwidth(u32),
    Level(u16),
    Assume(bool),
    Fault(Fault, bool),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Peer(pub u8);
pub struct Media(pub u64);
#[derive(Clone)]
pub struct Ctx(pub u64);
impl PlatformItem for Peer {}
impl PlatformItem for Media {}
impl PlatformItem for Ctx {}

#[derive(Default)]
pub struct World {
    pub log: Vec<Ev>,
    pub conns: Vec<(usize, Option<Connection<App>>)>,
    pub faults: BTreeSet<Fault>,
    pub assume: bool,
    media: u64,
}
#[derive(Clone)]
pub struct App(Arc<Mutex<World>>);
impl std::fmt::Display for App {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "app")
    }
}
impl std::fmt::Debug for App {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "app")
    }
}
impl sfu::Delegate for App {
    fn handle_peek_result(&self, _request_id: u32, _peek_result: sfu::PeekResult) {}
}
struct NoHttp;
impl http::Delegate for NoHttp {
    fn send_request(&self, _request_id: u32, _request: http::Request) {}
}
impl App {
    fn say(&self, e: Ev, fault: Option<Fault>) -> Result<()> {
        let mut w = self.0.lock().unwrap();
        w.log.push(e);
        match fault {
            Some(f) if w.faults.contains(&f) => Err(anyhow::anyhow!("told to fail")),
            _ => Ok(()),
        }
    }
}
fn max_of(v4: Option<protobuf::signaling::ConnectionParametersV4>) -> Option<u64> {
    v4.and_then(|v| v.max_bitrate_bps)
}
impl Platform for App {
    type AppIncomingMedia = Media;
    type AppRemotePeer = Peer;
    type AppConnection = RffiPeerConnection;
    type AppCallContext = Ctx;

    fn create_connection(
        &mut self,
        call: &Call<Self>,
        remote_device: DeviceId,
        connection_type: ConnectionType,
        _signaling_version: signaling::Version,
        call_config: CallConfig,
        audio_levels_interval: Option<Duration>,
    ) -> Result<Connection<Self>> {
        let n = {
            let w = self.0.lock().unwrap();
            if w.faults.contains(&Fault::Create) {
                return Err(anyhow::anyhow!("told to fail"));
            }
            w.conns.len()
        };
        let kind = match connection_type {
            ConnectionType::OutgoingParent => "parent",
            ConnectionType::OutgoingChild => "child",
            ConnectionType::Incoming => "incoming",
        };
        self.say(Ev::NewConnection { n, id: call.call_id().as_u64(), device: remote_device, kind }, None)?;
        let pc: &'static RffiPeerConnection = Box::leak(Box::new(RffiPeerConnection::new()));
        let conn = Connection::new(call.clone(), remote_device, connection_type, call_config, audio_levels_interval, None)?;
        conn.set_app_connection(pc.clone())?;
        let rc = unsafe { webrtc::Arc::from_borrowed(webrtc::ptr::BorrowedRc::from_ptr(pc)) };
        conn.set_peer_connection(PeerConnection::new(rc, None, None))?;
        self.0.lock().unwrap().conns.push((pc as *const _ as usize, Some(conn.clone())));
        Ok(conn)
    }
    fn on_start_call(&self, p: &Peer, id: CallId, d: CallDirection, m: CallMediaType) -> Result<()> {
        self.say(Ev::Start { peer: p.0, id: id.as_u64(), out: d == CallDirection::Outgoing, video: m == CallMediaType::Video }, Some(Fault::Start))
    }
    fn on_event(&self, p: &Peer, id: CallId, event: ApplicationEvent) -> Result<()> {
        self.say(Ev::App { peer: p.0, id: id.as_u64(), what: format!("{event:?}") }, Some(Fault::Event))
    }
    fn on_network_route_changed(&self, p: &Peer, r: NetworkRoute) -> Result<()> {
        self.say(Ev::Route { peer: p.0, relayed: (r.local_relayed, r.remote_relayed) }, None)
    }
    fn on_audio_levels(&self, p: &Peer, captured: AudioLevel, received: AudioLevel) -> Result<()> {
        self.say(Ev::Levels { peer: p.0, captured, received }, None)
    }
    fn on_low_bandwidth_for_video(&self, p: &Peer, recovered: bool) -> Result<()> {
        self.say(Ev::LowBandwidth { peer: p.0, recovered }, None)
    }
    fn on_send_offer(&self, p: &Peer, id: CallId, offer: signaling::Offer) -> Result<()> {
        self.say(
            Ev::Offer { peer: p.0, id: id.as_u64(), video: offer.call_media_type == CallMediaType::Video, max: max_of(offer.to_v4()) },
            Some(Fault::Offer),
        )
    }
    fn on_send_answer(&self, p: &Peer, id: CallId, send: signaling::SendAnswer) -> Result<()> {
        self.say(Ev::Answer { peer: p.0, id: id.as_u64(), device: send.receiver_device_id, max: max_of(send.answer.to_v4()) }, Some(Fault::Answer))
    }
    fn on_send_ice(&self, p: &Peer, id: CallId, send: signaling::SendIce) -> Result<()> {
        let cands = send
            .ice
            .candidates
            .iter()
            .map(|c| match (c.removed_address(), c.v3_sdp()) {
                (Some(a), _) => format!("-{a}"),
                (None, Some(s)) => format!("+{s}"),
                _ => "?".into(),
            })
            .collect();
        self.say(Ev::Ice { peer: p.0, id: id.as_u64(), device: send.receiver_device_id, cands }, Some(Fault::Ice))
    }
    fn on_send_hangup(&self, p: &Peer, id: CallId, send: signaling::SendHangup) -> Result<()> {
        self.say(Ev::Hangup { peer: p.0, id: id.as_u64(), what: format!("{:?}", Hang::of(send.hangup)) }, Some(Fault::Hangup))
    }
    fn on_send_busy(&self, p: &Peer, id: CallId) -> Result<()> {
        self.say(Ev::Busy { peer: p.0, id: id.as_u64() }, Some(Fault::Busy))
    }
    fn send_call_message(&self, _: Vec<u8>, _: Vec<u8>, _: group_call::SignalingMessageUrgency) -> Result<()> {
        Ok(())
    }
    fn send_call_message_to_group(&self, _: Vec<u8>, _: Vec<u8>, _: group_call::SignalingMessageUrgency, _: HashSet<UserId>) -> Result<()> {
        Ok(())
    }
    fn send_call_message_to_adhoc_group(&self, _: Vec<u8>, _: group_call::SignalingMessageUrgency, _: u64, _: HashMap<UserId, Vec<u8>>) -> Result<()> {
        Ok(())
    }
    fn create_incoming_media(&self, connection: &Connection<Self>, _m: MediaStream) -> Result<Media> {
        let mut w = self.0.lock().unwrap();
        w.media += 1;
        let media = w.media;
        let n = w.conns.iter().position(|c| c.1.as_ref().is_some_and(|c| c.id() == connection.id())).unwrap_or(usize::MAX);
        w.log.push(Ev::NewMedia { n, media });
        if w.faults.contains(&Fault::Media) {
            return Err(anyhow::anyhow!("told to fail"));
        }
        Ok(Media(media))
    }
    fn connect_incoming_media(&self, p: &Peer, ctx: &Ctx, m: &Media) -> Result<()> {
        self.say(Ev::Connect { peer: p.0, ctx: ctx.0, media: m.0 }, Some(Fault::Connect))
    }
    fn disconnect_incoming_media(&self, ctx: &Ctx) -> Result<()> {
        self.say(Ev::Disconnect { ctx: ctx.0 }, None)
    }
    fn compare_remotes(&self, a: &Peer, b: &Peer) -> Result<bool> {
        Ok(a == b)
    }
    fn on_offer_expired(&self, p: &Peer, id: CallId, age: Duration) -> Result<()> {
        self.say(Ev::Expired { peer: p.0, id: id.as_u64(), age: age.as_millis() as u64 }, None)
    }
    fn on_call_ended(&self, p: &Peer, id: CallId, reason: CallEndReason, _s: CallSummary) -> Result<()> {
        self.say(Ev::Ended { peer: p.0, id: id.as_u64(), why: format!("{reason:?}") }, None)
    }
    fn on_call_concluded(&self, p: &Peer, id: CallId) -> Result<()> {
        self.say(Ev::Concluded { peer: p.0, id: id.as_u64() }, None)
    }
    fn assume_messages_sent(&self) -> bool {
        self.0.lock().unwrap().assume
    }
    fn group_call_ring_update(&self, _: group_call::GroupId, _: group_call::RingId, _: UserId, _: group_call::RingUpdate) {}
    fn request_membership_proof(&self, _: group_call::ClientId) {}
    fn request_group_members(&self, _: group_call::ClientId) {}
    fn handle_connection_state_changed(&self, _: group_call::ClientId, _: group_call::ConnectionState) {}
    fn handle_network_route_changed(&self, _: group_call::ClientId, _: NetworkRoute) {}
    fn handle_join_state_changed(&self, _: group_call::ClientId, _: group_call::JoinState) {}
    fn handle_remote_devices_changed(&self, _: group_call::ClientId, _: &[group_call::RemoteDeviceState], _: group_call::RemoteDevicesChangedReason) {}
    fn handle_incoming_video_track(&self, _: group_call::ClientId, _: DemuxId, _: VideoTrack) {}
    fn handle_peek_changed(&self, _: group_call::ClientId, _: &PeekInfo, _: &HashSet<UserId>) {}
    fn handle_speaking_notification(&self, _: group_call::ClientId, _: group_call::SpeechEvent) {}
    fn handle_reactions(&self, _: group_call::ClientId, _: Vec<group_call::Reaction>) {}
    fn handle_raised_hands(&self, _: group_call::ClientId, _: Vec<DemuxId>) {}
    fn handle_ended(&self, _: group_call::ClientId, _: CallEndReason, _: CallSummary) {}
    fn handle_remote_mute_request(&self, _: group_call::ClientId, _: DemuxId) {}
    fn handle_observed_remote_mute(&self, _: group_call::ClientId, _: DemuxId, _: DemuxId) {}
}

pub struct Real {
    cm: Option<CallManager<App>>,
    pub world: Arc<Mutex<World>>,
}

fn route(local: bool, remote: bool) -> NetworkRoute {
    NetworkRoute {
        local_adapter_type: NetworkAdapterType::Unknown,
        local_adapter_type_under_vpn: NetworkAdapterType::Unknown,
        local_relayed: local,
        local_relay_protocol: TransportProtocol::Unknown,
        remote_relayed: remote,
    }
}
fn media(video: bool) -> CallMediaType {
    if video { CallMediaType::Video } else { CallMediaType::Audio }
}
fn mode(low: bool) -> DataMode {
    if low { DataMode::Low } else { DataMode::Normal }
}

impl Real {
    pub fn new() -> Real {
        actor::vx_reset();
        vx_probe::ON.store(true, Ordering::SeqCst);
        vx_probe::BWE.store(0, Ordering::SeqCst);
        vx_probe::LEVEL.store(0, Ordering::SeqCst);
        vx_probe::NOTES.lock().unwrap().clear();
        let world: Arc<Mutex<World>> = Default::default();
        let cm = CallManager::new(App(world.clone()), http::DelegatingClient::new(NoHttp)).unwrap();
        Real { cm: Some(cm), world }
    }
    fn conn(&self, n: usize) -> Option<Connection<App>> {
        self.world.lock().unwrap().conns.get(n).and_then(|c| c.1.clone())
    }
    /// give the operation to the code; nothing that waits is run yet (except for Time)
    pub fn inject(&mut self, op: &Op) {
        let cm = self.cm.as_mut().unwrap();
        let id = |i: &u64| CallId::new(*i);
        match op {
            Op::Call { peer, id: i, video, local } => cm.create_outgoing_call(Peer(*peer), id(i), media(*video), *local).unwrap(),
            Op::Proceed { id: i, ctx, low, levels_ms } => cm
                .proceed(id(i), Ctx(*ctx), CallConfig { data_mode: mode(*low), ..Default::default() }, levels_ms.map(Duration::from_millis))
                .unwrap(),
            Op::Accept { id: i } => cm.accept_call(id(i)).unwrap(),
            Op::Drop { id: i } => cm.drop_call(id(i)).unwrap(),
            Op::HangUp => cm.hangup().unwrap(),
            Op::Reset => cm.reset().unwrap(),
            Op::Sent { id: i } => cm.message_sent(id(i)).unwrap(),
            Op::SendFailed { id: i } => cm.message_send_failure(id(i)).unwrap(),
            Op::Offer { peer, id: i, age, from, to, video, max, bad } => {
                let offer = match bad {
                    Bad::Empty => signaling::Offer::new(media(*video), vec![]).unwrap(),
                    b => signaling::Offer::from_v4(media(*video), v4(*max, *b, *from)).unwrap(),
                };
                cm.received_offer(
                    Peer(*peer),
                    id(i),
                    signaling::ReceivedOffer {
                        offer,
                        age: Duration::from_millis(*age),
                        sender_device_id: *from,
                        receiver_device_id: *to,
                        sender_identity_key: b"theirs".to_vec(),
                        receiver_identity_key: b"mine".to_vec(),
                    },
                )
                .unwrap()
            }
            Op::Answer { peer, id: i, from, max, bad } => {
                let answer = match bad {
                    Bad::Empty => signaling::Answer::new(vec![]).unwrap(),
                    b => signaling::Answer::from_v4(v4(*max, *b, *from)).unwrap(),
                };
                cm.received_answer(
                    Peer(*peer),
                    id(i),
                    signaling::ReceivedAnswer { answer, sender_device_id: *from, sender_identity_key: b"theirs".to_vec(), receiver_identity_key: b"mine".to_vec() },
                )
                .unwrap()
            }
            Op::Ice { peer, id: i, from, cands } => cm
                .received_ice(Peer(*peer), id(i), signaling::ReceivedIce { ice: signaling::Ice { candidates: cands.iter().map(Cand::real).collect() }, sender_device_id: *from })
                .unwrap(),
            Op::Hangup { peer, id: i, from, what } => {
                cm.received_hangup(Peer(*peer), id(i), signaling::ReceivedHangup { hangup: what.real(), sender_device_id: *from }).unwrap()
            }
            Op::Busy { peer, id: i, from } => cm.received_busy(Peer(*peer), id(i), signaling::ReceivedBusy { sender_device_id: *from }).unwrap(),
            Op::IceState { n, what } => {
                if let Some(mut c) = self.conn(*n) {
                    let s = match what {
                        0 => IceConnectionState::Checking,
                        1 => IceConnectionState::Connected,
                        2 => IceConnectionState::Completed,
                        3 => IceConnectionState::Disconnected,
                        _ => IceConnectionState::Failed,
                    };
                    c.handle_ice_connection_state_changed(s).unwrap();
                }
            }
            Op::LocalIce { n, cand } => {
                if let Some(mut c) = self.conn(*n) {
                    match cand {
                        Cand::Remove(a) => c.handle_ice_candidate_removed(a.parse().unwrap()).unwrap(),
                        other => c.handle_ice_candidate_gathered(other.real(), "", None).unwrap(),
                    }
                }
            }
            Op::Route { n, local, remote } => {
                if let Some(mut c) = self.conn(*n) {
                    c.handle_ice_network_route_changed(route(*local, *remote)).unwrap();
                }
            }
            Op::Rtp { n, pt, ssrc, timestamp, payload } => {
                if let Some(mut c) = self.conn(*n) {
                    c.handle_rtp_received(rtp::Header { pt: *pt, seqnum: *timestamp as u16, timestamp: *timestamp, ssrc: *ssrc }, payload);
                }
            }
            Op::Media { n } => {
                if let Some(mut c) = self.conn(*n) {
                    c.handle_incoming_media_added(MediaStream::new(webrtc::Arc::null())).unwrap();
                }
            }
            Op::Sender { n, video, sharing, audio } => {
                if let Some(mut c) = self.conn(*n) {
                    c.update_sender_status(signaling::SenderStatus { video_enabled: *video, sharing_screen: *sharing, audio_enabled: *audio }).unwrap();
                }
            }
            Op::Mode { n, low } => {
                if let Some(mut c) = self.conn(*n) {
                    c.inject_update_data_mode(mode(*low)).unwrap();
                }
            }
            Op::Time(ms) => actor::vx_advance(Duration::from_millis(*ms)),
            Op::Bandwidth(b) => vx_probe::BWE.store(*b, Ordering::SeqCst),
            Op::Level(l) => vx_probe::LEVEL.store(*l, Ordering::SeqCst),
            Op::Assume(b) => self.world.lock().unwrap().assume = *b,
            Op::Fault(f, on) => {
                let mut w = self.world.lock().unwrap();
                if *on {
                    w.faults.insert(*f);
                } else {
                    w.faults.remove(f);
                }
            }
        }
    }
    fn notes(&mut self) {
        let notes = std::mem::take(&mut *vx_probe::NOTES.lock().unwrap());
        let mut w = self.world.lock().unwrap();
        for (p, what) in notes {
            let n = w.conns.iter().position(|c| c.0 == p).unwrap_or(usize::MAX);
            let e = match what {
                Note::Rtp { pt, seqnum, timestamp, ssrc, payload } => {
                    let m = <Msg as prost::Message>::decode(&payload[..]);
                    match m {
                        Ok(m) if pt == 101 && ssrc == 0xD && seqnum == timestamp as u16 => Ev::Rtp { n, timestamp, message: Box::new(m) },
                        _ => Ev::Pc { n, what: Note::Rtp { pt, seqnum, timestamp, ssrc, payload } },
                    }
                }
                what => Ev::Pc { n, what },
            };
            w.log.push(e);
        }
    }
    /// run until nothing is left to do; what happened
    pub fn settle(&mut self) -> Vec<Ev> {
        loop {
            actor::vx_run();
            // a terminated connection is let go by the application
            let mut gone = vec![];
            {
                let mut w = self.world.lock().unwrap();
                for c in w.conns.iter_mut() {
                    let over = c.1.as_ref().is_some_and(|c| format!("{:?}", c.state().unwrap()) == "Terminated");
                    if over {
                        gone.push(c.1.take());
                    }
                }
            }
            if gone.is_empty() {
                break;
            }
            drop(gone);
        }
        self.notes();
        std::mem::take(&mut self.world.lock().unwrap().log)
    }
    pub fn busy(&self) -> (bool, Option<u64>) {
        let cm = self.cm.as_ref().unwrap();
        (cm.busy(), cm.active_call().ok().map(|c| c.call_id().as_u64()))
    }
    pub fn state(&self, n: usize) -> Option<String> {
        self.conn(n).map(|c| format!("{:?}", c.state().unwrap()))
    }
}
impl Drop for Real {
    fn drop(&mut self) {
        if let Some(mut cm) = self.cm.take() {
            let _ = cm.reset();
            self.world.lock().unwrap().faults.clear();
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                self.settle();
            }))
            .is_err()
            {
                std::mem::forget(cm);
            } else {
                drop(cm);
            }
        }
        vx_probe::ON.store(false, Ordering::SeqCst);
        actor::vx_reset();
    }
}
