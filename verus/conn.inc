// ---- what a connection keeps and does (core/connection.rs) --------------------------------------
//% source src/rust/src/webrtc/rtp.rs
pub mod rtp {
    use super::*;
    //% item type PayloadType
    //% item type Ssrc
    //% item type SequenceNumber
    //% item type Timestamp
    //% item struct Header derive=Clone,Copy
}
//% source src/rust/src/webrtc/peer_connection_observer.rs
//% item enum TransportProtocol derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum NetworkAdapterType derive=Clone,Copy,PartialEq,Eq,Structural
//% item struct NetworkRoute derive=Clone,Copy,PartialEq,Eq,Structural
//% source src/rust/src/core/signaling.rs
pub mod signaling {
    use super::*;
    pub use super::{Hangup, HangupType, SenderStatus};

    // what signaling carries about candidates stays closed here
    pub struct Ice {
        pub candidates: Vec<IceCandidate>,
    }

    pub struct IceCandidate {
        pub opaque: Vec<u8>,
    }
}
pub struct MediaStream {
    pub raw: u64,
}
pub struct AppSync {
    pub raw: u64,
}
pub mod units {
    pub use super::DataRate;
}
pub mod anyhow {
    pub use super::VxError as Error;
}
pub struct Arc<T> {
    pub v: T,
}

pub enum RingRtcError {
    RtpDataProtocol(VxText),
}

impl RingRtcError {
    #[verifier::external_body]
    fn into(self) -> VxError {
        unimplemented!()
    }
}

pub struct VxText {
    pub v: u8,
}

pub type AudioLevel = u16;
pub type Result<T, E = VxError> = core::result::Result<T, E>;

//% item struct SenderStatus derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum Hangup derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum HangupType derive=Clone,Copy,PartialEq,Eq,Structural

// the number a hangup travels as, and the device it names
pub open spec fn hangup_as(h: Hangup) -> (HangupType, Option<DeviceId>) {
    match h {
        Hangup::Normal => (HangupType::Normal, None),
        Hangup::AcceptedOnAnotherDevice(d) => (HangupType::AcceptedOnAnotherDevice, Some(d)),
        Hangup::DeclinedOnAnotherDevice(d) => (HangupType::DeclinedOnAnotherDevice, Some(d)),
        Hangup::BusyOnAnotherDevice(d) => (HangupType::BusyOnAnotherDevice, Some(d)),
        Hangup::NeedPermission(d) => (HangupType::NeedPermission, d),
    }
}

pub open spec fn hangup_type_of(n: int) -> Option<HangupType> {
    if n == 0 { Some(HangupType::Normal) }
    else if n == 1 { Some(HangupType::AcceptedOnAnotherDevice) }
    else if n == 2 { Some(HangupType::DeclinedOnAnotherDevice) }
    else if n == 3 { Some(HangupType::BusyOnAnotherDevice) }
    else if n == 4 { Some(HangupType::NeedPermission) }
    else { None }
}

pub open spec fn hangup_number(t: HangupType) -> i32 {
    match t {
        HangupType::Normal => 0,
        HangupType::AcceptedOnAnotherDevice => 1,
        HangupType::DeclinedOnAnotherDevice => 2,
        HangupType::BusyOnAnotherDevice => 3,
        HangupType::NeedPermission => 4,
    }
}

pub open spec fn hangup_of(t: HangupType, d: DeviceId) -> Hangup {
    match t {
        HangupType::Normal => Hangup::Normal,
        HangupType::AcceptedOnAnotherDevice => Hangup::AcceptedOnAnotherDevice(d),
        HangupType::DeclinedOnAnotherDevice => Hangup::DeclinedOnAnotherDevice(d),
        HangupType::BusyOnAnotherDevice => Hangup::BusyOnAnotherDevice(d),
        HangupType::NeedPermission => Hangup::NeedPermission(Some(d)),
    }
}

// every hangup comes back as it went, except that one that names no device comes back naming device 0
pub proof fn hangups_come_back(h: Hangup)
    ensures
        ({
            let (t, d) = hangup_as(h);
            let seen = hangup_type_of(hangup_number(t) as int);
            &&& seen == Some(t)
            &&& hangup_of(t, d.unwrap_or(0)) == (if h == Hangup::NeedPermission(None) { Hangup::NeedPermission(Some(0)) } else { h })
        }),
{
}

impl Hangup {
    //% fn Hangup::to_type_and_device_id
        ensures
            r == hangup_as(*self),
    //% end

    //% fn Hangup::from_type_and_device_id
        ensures
            r == hangup_of(typ, device_id),
    //% end
}

impl HangupType {
    //% fn HangupType::from_i32
        ensures
            r == hangup_type_of(value as int),
    //% end
}

// ---- the messages two connected clients exchange ----
pub mod protobuf {
    pub mod rtp_data {
        pub use super::super::{
            Message,
            RtpAccepted as Accepted,
            RtpHangup as Hangup,
            RtpReceiverStatus as ReceiverStatus,
            RtpSenderStatus as SenderStatus,
        };
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RtpAccepted {
    pub id: Option<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RtpHangup {
    pub id: Option<u64>,
    pub r#type: Option<i32>,
    pub device_id: Option<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RtpSenderStatus {
    pub id: Option<u64>,
    pub video_enabled: Option<bool>,
    pub sharing_screen: Option<bool>,
    pub audio_enabled: Option<bool>,
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct RtpReceiverStatus {
    pub id: Option<u64>,
    pub max_bitrate_bps: Option<u64>,
}

// the generated accessors: an absent number reads 0, an unknown kind of hangup reads as the first
impl RtpAccepted {
    pub fn id(&self) -> (r: u64)
        ensures
            r == self.id.unwrap_or(0),
    {
        self.id.unwrap_or(0)
    }
}

impl RtpHangup {
    pub fn id(&self) -> (r: u64)
        ensures
            r == self.id.unwrap_or(0),
    {
        self.id.unwrap_or(0)
    }

    pub fn device_id(&self) -> (r: u32)
        ensures
            r == self.device_id.unwrap_or(0),
    {
        self.device_id.unwrap_or(0)
    }

    pub fn vx_type(&self) -> (r: i32)
        ensures
            r == known_type(self.r#type),
    {
        match self.r#type {
            Some(t) => if 0 <= t && t <= 4 { t } else { 0 },
            None => 0,
        }
    }
}

impl RtpSenderStatus {
    pub fn id(&self) -> (r: u64)
        ensures
            r == self.id.unwrap_or(0),
    {
        self.id.unwrap_or(0)
    }
}

impl RtpReceiverStatus {
    pub fn id(&self) -> (r: u64)
        ensures
            r == self.id.unwrap_or(0),
    {
        self.id.unwrap_or(0)
    }

    pub fn max_bitrate_bps(&self) -> (r: u64)
        ensures
            r == self.max_bitrate_bps.unwrap_or(0),
    {
        self.max_bitrate_bps.unwrap_or(0)
    }
}

pub open spec fn known_type(t: Option<i32>) -> i32 {
    match t {
        Some(t) => if 0 <= t && t <= 4 { t } else { 0 },
        None => 0,
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Message {
    pub accepted: Option<protobuf::rtp_data::Accepted>,
    pub hangup: Option<protobuf::rtp_data::Hangup>,
    pub sender_status: Option<protobuf::rtp_data::SenderStatus>,
    pub seqnum: Option<u64>,
    pub receiver_status: Option<protobuf::rtp_data::ReceiverStatus>,
}

pub open spec fn nothing_said() -> Message {
    Message { accepted: None, hangup: None, sender_status: None, seqnum: None, receiver_status: None }
}

// the bytes of a message, and what some bytes say
pub uninterp spec fn said(bytes: Seq<u8>) -> Option<Message>;

pub uninterp spec fn message_size() -> usize;

pub axiom fn message_size_small()
    ensures
        0 < message_size() < 10000,
;

#[verifier::external_body]
fn vx_message_size() -> (r: usize)
    ensures
        r == message_size(),
        0 < r < 10000,
{
    unimplemented!()
}

impl Message {
    #[verifier::external_body]
    fn default() -> (r: Message)
        ensures
            r == nothing_said(),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn decode(bytes: &[u8]) -> (r: Result<Message>)
        ensures
            r is Ok <==> said(bytes@) is Some,
            r matches Ok(m) ==> said(bytes@) == Some(m),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn encoded_len(&self) -> (r: usize) {
        unimplemented!()
    }

    #[verifier::external_body]
    fn encode(&self, bytes: &mut BytesMut) -> (r: Result<()>)
        ensures
            r is Ok,
            final(bytes).holds() == Some(*self),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
pub struct BytesMut {
    x: u8,
}

impl BytesMut {
    pub uninterp spec fn holds(&self) -> Option<Message>;

    #[verifier::external_body]
    fn with_capacity(n: usize) -> (r: BytesMut) {
        unimplemented!()
    }
}

// ---- what the connection asks of the media layer, and what it tells the call and itself ----
pub enum PcAct {
    Rate(DataRate),
    Rtp(rtp::Header, Message),
    Media,
    Ice(signaling::Ice),
}

pub struct SendRates {
    pub min: Option<DataRate>,
    pub start: Option<DataRate>,
    pub max: Option<DataRate>,
}

impl SendRates {
    fn default() -> (r: SendRates)
        ensures
            r.min is None && r.start is None && r.max is None,
    {
        SendRates { min: None, start: None, max: None }
    }
}

pub struct PeerConnection {
    pub acts: Ghost<Seq<PcAct>>,
    // whether it takes the rates it is given
    pub works: Ghost<bool>,
}

// what else a connection does, told apart by what it is given
pub enum Deed {
    Ice(signaling::Ice),
    Candidates(Vec<signaling::IceCandidate>),
    Media(MediaStream),
}

impl PeerConnection {
    // may fail; what was asked for counts either way
    #[verifier::external_body]
    fn set_send_rates(&mut self, rates: SendRates) -> (r: Result<()>)
        requires
            rates.max is Some && rates.min is None && rates.start is None,
        ensures
            *final(self) == (PeerConnection { acts: Ghost(old(self).acts@.push(PcAct::Rate(rates.max->0))), ..*old(self) }),
            r is Ok <==> old(self).works@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn send_rtp(&mut self, header: rtp::Header, bytes: &BytesMut) -> (r: Result<()>)
        requires
            bytes.holds() is Some,
        ensures
            *final(self) == (PeerConnection { acts: Ghost(old(self).acts@.push(PcAct::Rtp(header, bytes.holds()->0))), ..*old(self) }),
    {
        unimplemented!()
    }
}

pub struct WebRtcData {
    pub last_sent_rtp_data_timestamp: u32,
    pub peer_connection: Option<PeerConnection>,
}

impl WebRtcData {
    // WebRtcData::peer_connection, giving the log of the media layer to write to
    fn vx_peer_connection(&mut self) -> (r: Result<&mut PeerConnection>)
        ensures
            match r {
                Ok(p) => old(self).peer_connection == Some(*p) && *final(self) == (WebRtcData {
                    peer_connection: Some(*final(p)),
                    ..*old(self)
                }),
                Err(_) => old(self).peer_connection is None && *final(self) == *old(self),
            },
    {
        match &mut self.peer_connection {
            Some(p) => Ok(p),
            None => Err(vx_anyhow()),
        }
    }
}
//% source src/rust/src/core/connection.rs
//% item enum ConnectionObserverEvent
pub struct Mutex<T> {
    pub v: T,
}

pub struct Condvar {
    pub v: u8,
}

//% source src/rust/src/core/connection_fsm.rs
//% item enum ConnectionEvent
//% source src/rust/src/core/connection.rs
//% item struct BandwidthController
//% item const RTP_DATA_PAYLOAD_TYPE
//% item const RTP_DATA_SSRC
//% item const MIN_SEND_RATE ensures=MIN_SEND_RATE{}=={}kbps(30)
//% item const RELAYED_MAX_SEND_RATE ensures=RELAYED_MAX_SEND_RATE{}=={}kbps(1000)

pub open spec fn kbps(n: int) -> DataRate {
    DataRate { size_per_second: DataSize { bits: (n * 1000) as u64 } }
}

impl DataRate {
    // Ord::max of a type whose order is derived: by its only number
    fn vx_max(self, o: DataRate) -> (r: DataRate)
        ensures
            r == (if self.bps() <= o.bps() { o } else { self }),
    {
        if self.size_per_second.bits <= o.size_per_second.bits { o } else { self }
    }
}

// as fast as this client wants, the other one allows and a relay should carry, but never below 30 kbit/s
pub open spec fn rate_for(b: BandwidthController) -> int {
    let own = b.local_mode.rate().bps();
    let both = match b.remote_max {
        Some(m) => if own <= m.bps() { own } else { m.bps() },
        None => own,
    };
    let all = if (b.network_route.local_relayed || b.network_route.remote_relayed) && both > 1_000_000 { 1_000_000 } else { both };
    if all < 30_000 { 30_000 } else { all }
}

impl BandwidthController {
    //% fn BandwidthController::max_send_rate
        ensures
            r.bps() == rate_for(*self),
    //% sub? \.max\( ==> .vx_max(
    //% end

    //% fn BandwidthController::local_max
        ensures
            r == self.local_mode.rate(),
    //% end

    //% fn BandwidthController::relay_max
        ensures
            match r {
                Some(m) => m.bps() == 1_000_000 && (self.network_route.local_relayed || self.network_route.remote_relayed),
                None => !(self.network_route.local_relayed || self.network_route.remote_relayed),
            },
    //% end
}

pub struct Connection {
    pub call_id: CallId,
    pub direction: CallDirection,
    pub state: ConnectionState,
    pub webrtc: WebRtcData,
    pub bandwidth_controller: BandwidthController,
    pub accumulated_rtp_data_message: Message,
    pub last_received_rtp_data_timestamp: rtp::Timestamp,
    // what the call was told, and what the connection sent itself
    pub told: Ghost<Seq<ConnectionObserverEvent>>,
    pub injected: Ghost<Seq<ConnectionEvent>>,
    // what else it did
    pub did: Ghost<Seq<Deed>>,
    // whether the call still takes events
    pub open: Ghost<bool>,
}

// what update_bandwidth_controller is asked to change: its callers' closures
pub enum VxUpdate {
    Route(NetworkRoute),
    Remote(DataRate),
    Mode(DataMode),
}

pub open spec fn changed_to(u: VxUpdate, b: BandwidthController) -> BandwidthController {
    match u {
        VxUpdate::Route(n) => BandwidthController { network_route: n, ..b },
        VxUpdate::Remote(m) => BandwidthController { remote_max: Some(m), ..b },
        VxUpdate::Mode(m) => BandwidthController { local_mode: m, ..b },
    }
}

fn vx_update(u: VxUpdate, b: &mut BandwidthController) -> (r: bool)
    ensures
        *final(b) == changed_to(u, *old(b)),
        r == (*final(b) != *old(b)),
{
    match u {
        VxUpdate::Route(n) => route_update(b, n),
        VxUpdate::Remote(m) => remote_update(b, m),
        VxUpdate::Mode(m) => mode_update(b, m),
    }
}

//% fn Connection::set_network_route#1 as route_update
    ensures
        *final(bandwidth_controller) == changed_to(VxUpdate::Route(network_route), *old(bandwidth_controller)),
        r == (*final(bandwidth_controller) != *old(bandwidth_controller)),
//% sig fn route_update(bandwidth_controller: &mut BandwidthController, network_route: NetworkRoute) -> (r: bool)
//% end

//% fn Connection::set_remote_max_bitrate#0 as remote_update
    ensures
        *final(bandwidth_controller) == changed_to(VxUpdate::Remote(remote_max), *old(bandwidth_controller)),
        r == (*final(bandwidth_controller) != *old(bandwidth_controller)),
//% sig fn remote_update(bandwidth_controller: &mut BandwidthController, remote_max: DataRate) -> (r: bool)
//% end

//% fn Connection::update_data_mode#0 as mode_update
    ensures
        *final(bandwidth_controller) == changed_to(VxUpdate::Mode(local_mode), *old(bandwidth_controller)),
        r == (*final(bandwidth_controller) != *old(bandwidth_controller)),
//% sig fn mode_update(bandwidth_controller: &mut BandwidthController, local_mode: DataMode) -> (r: bool)
//% end

// the media layer was asked for one more thing
pub open spec fn asked(before: WebRtcData, after: WebRtcData, a: PcAct) -> bool {
    &&& before.peer_connection matches Some(p)
    &&& after == (WebRtcData { peer_connection: Some(PeerConnection { acts: Ghost(p.acts@.push(a)), ..p }), ..before })
}

// the limits were changed so; when that made a difference, the media layer was given the new rate
pub open spec fn limits_changed(before: Connection, after: Connection, u: VxUpdate) -> bool {
    let b = changed_to(u, before.bandwidth_controller);
    &&& after == (Connection { bandwidth_controller: b, webrtc: after.webrtc, ..before })
    &&& if b == before.bandwidth_controller {
        after.webrtc == before.webrtc
    } else {
        match before.webrtc.peer_connection {
            Some(_) => exists|d: DataRate| #[trigger] d.bps() == rate_for(b) && asked(before.webrtc, after.webrtc, PcAct::Rate(d)),
            None => after.webrtc == before.webrtc,
        }
    }
}

// one RTP packet with this message went out, numbered after the last one
pub open spec fn packet(before: WebRtcData, after: WebRtcData, m: Message) -> bool {
    let n = (before.last_sent_rtp_data_timestamp + 1) as u32;
    &&& after.last_sent_rtp_data_timestamp == n
    &&& match before.peer_connection {
        Some(p) => after.peer_connection == Some(
            PeerConnection {
                acts: Ghost(p.acts@.push(PcAct::Rtp(
                    rtp::Header { pt: 101, seqnum: n as u16, timestamp: n, ssrc: 0xD },
                    m,
                ))),
                ..p
            },
        ),
        None => after.peer_connection is None,
    }
}

// what was said so far plus something new: numbered one higher, kept, and sent in full
pub open spec fn says(before: Connection, after: Connection, m: Message) -> bool {
    let all = Message { seqnum: Some((before.accumulated_rtp_data_message.seqnum.unwrap_or(0) + 1) as u64), ..m };
    &&& packet(before.webrtc, after.webrtc, all)
    &&& after == (Connection { webrtc: after.webrtc, accumulated_rtp_data_message: all, ..before })
}

pub open spec fn room(c: Connection) -> bool {
    &&& c.webrtc.last_sent_rtp_data_timestamp < u32::MAX
    &&& c.accumulated_rtp_data_message.seqnum.unwrap_or(0) < u64::MAX
}

pub enum VxPopulate {
    Hangup(protobuf::rtp_data::Hangup),
    Accepted(protobuf::rtp_data::Accepted),
    Receiver(protobuf::rtp_data::ReceiverStatus),
    Sender(signaling::SenderStatus, CallId),
}

pub open spec fn else_old<T>(new: Option<T>, old: Option<T>) -> Option<T> {
    if new is Some { new } else { old }
}

pub open spec fn populated(p: VxPopulate, m: Message) -> Message {
    match p {
        VxPopulate::Hangup(h) => Message { hangup: Some(h), ..m },
        VxPopulate::Accepted(a) => Message { accepted: Some(a), ..m },
        VxPopulate::Receiver(x) => Message { receiver_status: Some(x), ..m },
        VxPopulate::Sender(u, id) => {
            let was = m.sender_status;
            Message {
                sender_status: Some(protobuf::rtp_data::SenderStatus {
                    id: Some(id.id),
                    video_enabled: else_old(u.video_enabled, if was is Some { was->0.video_enabled } else { None }),
                    sharing_screen: else_old(u.sharing_screen, if was is Some { was->0.sharing_screen } else { None }),
                    audio_enabled: else_old(u.audio_enabled, if was is Some { was->0.audio_enabled } else { None }),
                }),
                ..m
            }
        },
    }
}

fn vx_populate(p: VxPopulate, data: &mut Message)
    ensures
        *final(data) == populated(p, *old(data)),
{
    match p {
        VxPopulate::Hangup(h) => say_hangup(data, h),
        VxPopulate::Accepted(a) => say_accepted(data, a),
        VxPopulate::Receiver(x) => say_receiver(data, x),
        VxPopulate::Sender(u, id) => say_sender(data, u, id),
    }
}

//% fn Connection::send_hangup_via_rtp_data#0 as say_hangup
    ensures
        *final(data) == populated(VxPopulate::Hangup(hangup), *old(data)),
//% sig fn say_hangup(data: &mut Message, hangup: protobuf::rtp_data::Hangup)
//% end

//% fn Connection::send_accepted_via_rtp_data#0 as say_accepted
    ensures
        *final(data) == populated(VxPopulate::Accepted(accepted), *old(data)),
//% sig fn say_accepted(data: &mut Message, accepted: protobuf::rtp_data::Accepted)
//% end

//% fn Connection::update_data_mode#1 as say_receiver
    ensures
        *final(data) == populated(VxPopulate::Receiver(receiver_status), *old(data)),
//% sig fn say_receiver(data: &mut Message, receiver_status: protobuf::rtp_data::ReceiverStatus)
//% end

//% fn Connection::update_sender_status_from_fsm#0 as say_sender
    ensures
        *final(data) == populated(VxPopulate::Sender(updated, call_id), *old(data)),
//% sig fn say_sender(data: &mut Message, updated: signaling::SenderStatus, call_id: CallId)
//% sub? u64::from\(self\.call_id\) ==> call_id.id
//% closure 0
|sender_status: &protobuf::rtp_data::SenderStatus| -> (q: Option<bool>)
    ensures
        q == sender_status.video_enabled,
//% closure 1
|sender_status: &protobuf::rtp_data::SenderStatus| -> (q: Option<bool>)
    ensures
        q == sender_status.sharing_screen,
//% closure 2
|sender_status: &protobuf::rtp_data::SenderStatus| -> (q: Option<bool>)
    ensures
        q == sender_status.audio_enabled,
//% end

impl Connection {
    pub open spec fn with(self, e: ConnectionEvent) -> Connection {
        Connection { injected: Ghost(self.injected@.push(e)), ..self }
    }

    //% fn Connection::call_id
        ensures
            r == self.call_id,
    //% end

    //% fn Connection::direction
        ensures
            r == self.direction,
    //% end

    //% fn Connection::state
        ensures
            r == Ok::<ConnectionState, VxError>(self.state),
    //% sub self\.state\.lock\(\)\? ==> &self.state
    //% end

    // the call takes the event while it is there
    #[verifier::external_body]
    pub fn notify_observer(&mut self, event: ConnectionObserverEvent) -> (r: Result<()>)
        ensures
            *final(self) == old(self).telling(event),
            r is Ok <==> old(self).open@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn handle_received_ice(&mut self, ice: signaling::Ice) -> (r: Result<()>)
        ensures
            *final(self) == old(self).doing(Deed::Ice(ice)),
            old(self).webrtc.peer_connection is Some ==> r is Ok,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn buffer_local_ice_candidates(&mut self, candidates: Vec<signaling::IceCandidate>) -> (r: Result<()>)
        ensures
            *final(self) == old(self).doing(Deed::Candidates(candidates)),
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn handle_received_incoming_media(&mut self, stream: MediaStream) -> (r: Result<()>)
        ensures
            *final(self) == old(self).doing(Deed::Media(stream)),
    {
        unimplemented!()
    }

    // handed to the connection's own state machine, whose queue may be gone already
    #[verifier::external_body]
    fn inject_event(&mut self, event: ConnectionEvent) -> (r: Result<()>)
        ensures
            *final(self) == (Connection { injected: final(self).injected, ..*old(self) }),
            final(self).injected@ == old(self).injected@.push(event),
    {
        unimplemented!()
    }

    //% fn Connection::set_state
        ensures
            *final(self) == old(self).entering(new_state),
            old(self).open@ ==> r is Ok,
    //% sub? &self ==> &mut self
    //% sub let mut state = self\.state\.lock\(\)\?; ==> let state = &mut self.state;
    //% end

    //% fn Connection::terminating
        ensures
            r == Ok::<bool, VxError>(self.state is Terminating),
    //% end

    //% fn Connection::update_bandwidth_controller
        ensures
            limits_changed(*old(self), *final(self), update),
            r matches Ok(c) ==> c == (final(self).bandwidth_controller != old(self).bandwidth_controller),
            r is Err ==> final(self).bandwidth_controller != old(self).bandwidth_controller,
            whole(*old(self)) ==> r is Ok,
    //% sub? &self ==> &mut self
    //% sub? impl\s+FnOnce\(&mut BandwidthController\)\s*->\s*bool ==> VxUpdate
    //% sub let mut bandwidth_controller = self\.bandwidth_controller\.lock\(\)\?; ==> let mut bandwidth_controller = &mut self.bandwidth_controller;
    //% sub update\(&mut bandwidth_controller\) ==> vx_update(update, bandwidth_controller)
    //% sub let mut webrtc = self\.webrtc\.lock\(\)\?; ==> let mut webrtc = &mut self.webrtc;
    //% sub self\.apply_bandwidth_controller\(&mut bandwidth_controller, &mut webrtc\) ==> Self::apply_bandwidth_controller(bandwidth_controller, webrtc)
    //% end

    //% fn Connection::apply_bandwidth_controller
        ensures
            *final(bandwidth_controller) == *old(bandwidth_controller),
            match old(webrtc).peer_connection {
                Some(_) => exists|d: DataRate| #[trigger] d.bps() == rate_for(*old(bandwidth_controller)) && asked(
                    *old(webrtc),
                    *final(webrtc),
                    PcAct::Rate(d),
                ),
                None => r is Err && *final(webrtc) == *old(webrtc),
            },
            old(webrtc).peer_connection matches Some(p) && p.works@ ==> r is Ok,
    //% sub? &self,\s* ==>
    //% sub? MutexGuard<BandwidthController> ==> BandwidthController
    //% sub? MutexGuard<WebRtcData<T>> ==> WebRtcData
    //% sub webrtc\s*\.peer_connection\(\) ==> webrtc.vx_peer_connection()
    //% end

    //% fn Connection::set_network_route
        ensures
            limits_changed(*old(self), *final(self), VxUpdate::Route(network_route)),
            whole(*old(self)) ==> r is Ok,
    //% sub? &self ==> &mut self
    //% cut if let Ok\(mut webrtc\)[\s\S]*?\n\s*\{ ==> 
    //% closure 0
    $REPLACE VxUpdate::Route(network_route)
    //% end

    //% fn Connection::set_remote_max_bitrate
        ensures
            limits_changed(*old(self), *final(self), VxUpdate::Remote(remote_max)),
            whole(*old(self)) ==> r is Ok,
    //% sub? &self ==> &mut self
    //% closure 0
    $REPLACE VxUpdate::Remote(remote_max)
    //% end

    //% fn Connection::update_data_mode
        requires
            room(*old(self)),
        ensures
            whole(*old(self)) ==> r is Ok && mode_set(*old(self), *final(self), local_mode),
            final(self).bandwidth_controller.local_mode == local_mode,
    //% sub? &self ==> &mut self
    //% sub u64::from\(self\.call_id\) ==> self.call_id.id
    //% sub let mut webrtc = self\.webrtc\.lock\(\)\?; ==>
    //% sub \(&mut webrtc,\s* ==> (
    //% closure 0
    $REPLACE VxUpdate::Mode(local_mode)
    //% closure 1
    $REPLACE VxPopulate::Receiver(receiver_status)
    //% before if changed
    let ghost c = *self;
    proof {
        assert(limits_changed(*old(self), c, VxUpdate::Mode(local_mode)));
    }
    //% end

    //% fn Connection::update_and_send_rtp_data_message
        requires
            room(*old(self)),
        ensures
            says(*old(self), *final(self), populated(populate, old(self).accumulated_rtp_data_message)),
            r is Ok <==> old(self).webrtc.peer_connection is Some,
    //% sig fn update_and_send_rtp_data_message(&mut self, populate: VxPopulate)
    //% sub let mut state = self\.accumulated_rtp_data_message\.lock\(\)\?; ==> let state = &mut self.accumulated_rtp_data_message;
    //% sub populate\(&mut state\) ==> vx_populate(populate, state)
    //% sub ;\s*state\s*\} ==> ; *state }
    //% sub \(webrtc_data, ==> (
    //% end

    //% fn Connection::send_latest_rtp_data_message
        requires
            room(*old(self)),
        ensures
            old(self).accumulated_rtp_data_message == nothing_said() ==> *final(self) == *old(self) && r is Ok,
            old(self).accumulated_rtp_data_message != nothing_said() ==> packet(old(self).webrtc, final(self).webrtc, old(self).accumulated_rtp_data_message)
                && *final(self) == (Connection { webrtc: final(self).webrtc, ..*old(self) }),
    //% sig fn send_latest_rtp_data_message(&mut self)
    //% sub let data = self\.accumulated_rtp_data_message\.lock\(\)\?; ==> let data = self.accumulated_rtp_data_message;
    //% sub \*data ==> data
    //% sub protobuf::rtp_data::Message::default\(\) ==> Message::default()
    //% sub \(webrtc_data, ==> (
    //% end

    //% fn Connection::send_via_rtp_data
        requires
            old(self).webrtc.last_sent_rtp_data_timestamp < u32::MAX,
        ensures
            packet(old(self).webrtc, final(self).webrtc, *data),
            *final(self) == (Connection { webrtc: final(self).webrtc, ..*old(self) }),
            r is Ok <==> old(self).webrtc.peer_connection is Some,
    //% sig fn send_via_rtp_data(&mut self, data: &Message)
    //% sub webrtc_data\b ==> self.webrtc
    //% sub \.peer_connection\(\) ==> .vx_peer_connection()
    //% end

    //% fn Connection::send_hangup_via_rtp_data
        requires
            room(*old(self)),
        ensures
            says(*old(self), *final(self), populated(VxPopulate::Hangup(protobuf::rtp_data::Hangup {
                id: Some(old(self).call_id.id),
                r#type: Some(hangup_number(hangup_as(hangup).0)),
                device_id: hangup_as(hangup).1,
            }), old(self).accumulated_rtp_data_message)),
            r is Ok <==> old(self).webrtc.peer_connection is Some,
    //% sub? &self ==> &mut self
    //% sub u64::from\(self\.call_id\) ==> self.call_id.id
    //% sub hangup_type as i32 ==> vx_hangup_number(hangup_type)
    //% sub let mut webrtc = self\.webrtc\.lock\(\)\?; ==>
    //% sub \(&mut webrtc,\s* ==> (
    //% closure 0
    $REPLACE VxPopulate::Hangup(hangup)
    //% end

    //% fn Connection::send_accepted_via_rtp_data
        requires
            room(*old(self)),
        ensures
            says(*old(self), *final(self), populated(VxPopulate::Accepted(protobuf::rtp_data::Accepted {
                id: Some(old(self).call_id.id),
            }), old(self).accumulated_rtp_data_message)),
            r is Ok <==> old(self).webrtc.peer_connection is Some,
    //% sub? &self ==> &mut self
    //% sub u64::from\(self\.call_id\) ==> self.call_id.id
    //% sub let mut webrtc = self\.webrtc\.lock\(\)\?; ==>
    //% sub \(&mut webrtc,\s* ==> (
    //% closure 0
    $REPLACE VxPopulate::Accepted(accepted)
    //% end

    //% fn Connection::update_sender_status_from_fsm
        requires
            room(*old(self)),
        ensures
            says(*old(self), *final(self), populated(VxPopulate::Sender(updated, old(self).call_id), old(self).accumulated_rtp_data_message)),
            r is Ok <==> old(self).webrtc.peer_connection is Some,
    //% sub? &self ==> &mut self
    //% sub let mut webrtc = self\.webrtc\.lock\(\)\?; ==>
    //% sub \(&mut webrtc,\s* ==> (
    //% closure 0
    $REPLACE VxPopulate::Sender(updated, self.call_id)
    //% end

    // a packet of another stream, or an older one, is ignored; else what it says is handed on
    //% fn RtpObserverTrait for Connection::handle_rtp_received
        ensures
            if header.pt == 101 && header.ssrc == 0xD && header.timestamp >= old(self).last_received_rtp_data_timestamp {
                heard(Connection { last_received_rtp_data_timestamp: header.timestamp, ..*old(self) }, *final(self), payload@)
            } else {
                *final(self) == *old(self)
            },
    //% sub let mut last_received_rtp_data_timestamp = self\s*\.last_received_rtp_data_timestamp\s*\.lock\(\)\s*\.expect\([^()]*\); ==>
    //% sub \*last_received_rtp_data_timestamp\b ==> self.last_received_rtp_data_timestamp
    //% sub drop\(last_received_rtp_data_timestamp\); ==>
    //% end

    //% fn Connection::inject_internal_error
        ensures
            *final(self) == old(self).with(ConnectionEvent::InternalError(error)),
    //% end

    //% fn Connection::inject_received_accepted_via_rtp_data
        ensures
            *final(self) == old(self).with(ConnectionEvent::ReceivedAcceptedViaRtpData(call_id)),
    //% end

    //% fn Connection::inject_received_hangup
        ensures
            *final(self) == old(self).with(ConnectionEvent::ReceivedHangup(call_id, hangup)),
    //% end

    //% fn Connection::inject_received_sender_status_via_rtp_data
        ensures
            *final(self) == old(self).with(ConnectionEvent::ReceivedSenderStatusViaRtpData(call_id, status, seqnum)),
    //% end

    //% fn Connection::inject_received_receiver_status_via_rtp_data
        ensures
            *final(self) == old(self).with(ConnectionEvent::ReceivedReceiverStatusViaRtpData(call_id, max_bitrate, seqnum)),
    //% end

    //% fn Connection::inject_received_via_rtp_data
        ensures
            heard(*old(self), *final(self), bytes@),
    //% sub "[^"]*"\.to_string\(\) ==> VxText { v: 0 }
    //% sub std::mem::size_of::<protobuf::rtp_data::Message>\(\) ==> vx_message_size()
    //% sub protobuf::rtp_data::Message::decode ==> Message::decode
    //% sub hangup\.r#type\(\) as i32 ==> hangup.vx_type()
    //% before if let Some\(hangup\) = message\.hangup
    proof {
        assert(heard_accepted(*old(self), *self, message));
    }
    //% end
}

pub fn vx_hangup_number(t: HangupType) -> (r: i32)
    ensures
        r == hangup_number(t),
{
    match t {
        HangupType::Normal => 0,
        HangupType::AcceptedOnAnotherDevice => 1,
        HangupType::DeclinedOnAnotherDevice => 2,
        HangupType::BusyOnAnotherDevice => 3,
        HangupType::NeedPermission => 4,
    }
}

// a new mode: the limits follow, and when they changed the other side is told the new maximum
pub open spec fn mode_set(before: Connection, after: Connection, mode: DataMode) -> bool {
    if mode == before.bandwidth_controller.local_mode {
        after == before
    } else {
        exists|c: Connection| #[trigger] limits_changed(before, c, VxUpdate::Mode(mode)) && says(
            c,
            after,
            populated(VxPopulate::Receiver(protobuf::rtp_data::ReceiverStatus {
                id: Some(before.call_id.id),
                max_bitrate_bps: Some(mode.rate().bps() as u64),
            }), c.accumulated_rtp_data_message),
        )
    }
}

// what a received message has this connection do, in order
pub open spec fn heard_accepted(c: Connection, after: Connection, m: Message) -> bool {
    match m.accepted {
        Some(a) => if c.direction is Outgoing {
            after == c.with(ConnectionEvent::ReceivedAcceptedViaRtpData(CallId { id: a.id.unwrap_or(0) }))
        } else {
            exists|e: VxError| after == #[trigger] c.with(ConnectionEvent::InternalError(e))
        },
        None => after == c,
    }
}

pub open spec fn heard_hangup(c: Connection, m: Message) -> Connection {
    match m.hangup {
        Some(h) => c.with(
            ConnectionEvent::ReceivedHangup(
                CallId { id: h.id.unwrap_or(0) },
                hangup_of(hangup_type_of(known_type(h.r#type) as int)->0, h.device_id.unwrap_or(0)),
            ),
        ),
        None => c,
    }
}

pub open spec fn heard_sender(c: Connection, m: Message) -> Connection {
    match (m.sender_status, m.seqnum) {
        (Some(s), Some(n)) => c.with(
            ConnectionEvent::ReceivedSenderStatusViaRtpData(
                CallId { id: s.id.unwrap_or(0) },
                signaling::SenderStatus {
                    video_enabled: s.video_enabled,
                    sharing_screen: s.sharing_screen,
                    audio_enabled: s.audio_enabled,
                },
                n,
            ),
        ),
        _ => c,
    }
}

pub open spec fn heard_receiver(c: Connection, m: Message) -> Connection {
    match (m.receiver_status, m.seqnum) {
        (Some(s), Some(n)) => c.with(
            ConnectionEvent::ReceivedReceiverStatusViaRtpData(
                CallId { id: s.id.unwrap_or(0) },
                DataRate { size_per_second: DataSize { bits: s.max_bitrate_bps.unwrap_or(0) } },
                n,
            ),
        ),
        _ => c,
    }
}

pub open spec fn heard(before: Connection, after: Connection, bytes: Seq<u8>) -> bool {
    if 0 < bytes.len() <= 2 * message_size() && said(bytes) is Some {
        let m = said(bytes)->0;
        exists|c: Connection| #[trigger]
            heard_accepted(before, c, m) && after == heard_receiver(heard_sender(heard_hangup(c, m), m), m)
    } else {
        after == before
    }
}
