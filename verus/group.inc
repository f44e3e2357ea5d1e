// ---- the messages (generated from the .proto files at build time: shims with the same names) ----
pub mod protobuf {
    pub mod group_call {
        use super::super::*;

        pub mod device_to_device {
            use super::super::super::*;

            pub struct MediaKey {
                pub ratchet_counter: Option<u32>,
                pub secret: Option<Vec<u8>>,
                pub demux_id: Option<u32>,
            }

            pub struct Leaving {
                pub demux_id: Option<u32>,
            }

            impl VxDefault for Leaving {
                open spec fn vx_is_default(r: Self) -> bool {
                    r.demux_id is None
                }

                fn vx_default() -> (r: Self) {
                    Leaving { demux_id: None }
                }
            }

            pub struct Heartbeat {
                pub audio_muted: Option<bool>,
                pub video_muted: Option<bool>,
                pub presenting: Option<bool>,
                pub sharing_screen: Option<bool>,
                pub muted_by_demux_id: Option<u32>,
            }

            pub struct Reaction {
                pub value: Option<String>,
            }
        }

        pub struct RemoteMuteRequest {
            pub target_demux_id: Option<u32>,
        }

        pub mod device_to_sfu {
            use super::super::super::*;

            pub struct RaiseHand {
                pub raise: Option<bool>,
                pub seqnum: Option<u32>,
            }

            pub struct LeaveMessage {}

            pub struct GenericAdminAction {
                pub target_demux_id: Option<u32>,
            }

            pub enum AdminAction {
                Approve(GenericAdminAction),
                Deny(GenericAdminAction),
                Remove(GenericAdminAction),
                Block(GenericAdminAction),
            }
        }

        pub struct DeviceToSfu {
            pub leave: Option<device_to_sfu::LeaveMessage>,
            pub raise_hand: Option<device_to_sfu::RaiseHand>,
            pub admin_action: Option<device_to_sfu::AdminAction>,
        }

        impl DeviceToSfu {
            #[verifier::external_body]
            pub fn encode_to_vec(&self) -> (r: Vec<u8>)
                ensures
                    r@ == wire_sfu(*self),
            {
                unimplemented!()
            }
        }

        impl VxDefault for DeviceToSfu {
            open spec fn vx_is_default(r: Self) -> bool {
                r.leave is None && r.raise_hand is None && r.admin_action is None
            }

            fn vx_default() -> (r: Self) {
                DeviceToSfu { leave: None, raise_hand: None, admin_action: None }
            }
        }

        pub struct DeviceToDevice {
            pub group_id: Option<Vec<u8>>,
            pub media_key: Option<device_to_device::MediaKey>,
            pub leaving: Option<device_to_device::Leaving>,
            pub heartbeat: Option<device_to_device::Heartbeat>,
            pub reaction: Option<device_to_device::Reaction>,
            pub remote_mute_request: Option<RemoteMuteRequest>,
        }

        impl DeviceToDevice {
            #[verifier::external_body]
            pub fn encode_to_vec(&self) -> (r: Vec<u8>)
                ensures
                    r@ == wire(*self),
            {
                unimplemented!()
            }
        }

        impl VxDefault for DeviceToDevice {
            open spec fn vx_is_default(r: Self) -> bool {
                r.group_id is None && r.media_key is None && r.leaving is None && r.heartbeat is None && r.reaction is None
                    && r.remote_mute_request is None
            }

            fn vx_default() -> (r: Self) {
                DeviceToDevice {
                    group_id: None,
                    media_key: None,
                    leaving: None,
                    heartbeat: None,
                    reaction: None,
                    remote_mute_request: None,
                }
            }
        }
    }

    pub mod signaling {
        use super::super::*;

        pub mod call_message {
            use super::super::super::*;

            pub struct RingIntention {
                pub group_id: Option<Vec<u8>>,
                pub r#type: Option<i32>,
                pub ring_id: Option<i64>,
            }

            pub struct RingResponse {
                pub group_id: Option<Vec<u8>>,
                pub r#type: Option<i32>,
                pub ring_id: Option<i64>,
            }
        }

        pub struct CallMessage {
            pub ring_intention: Option<call_message::RingIntention>,
            pub ring_response: Option<call_message::RingResponse>,
            pub group_call_message: Option<super::group_call::DeviceToDevice>,
        }

        impl CallMessage {
            #[verifier::external_body]
            pub fn clone(&self) -> (r: Self)
                ensures
                    r == *self,
            {
                unimplemented!()
            }
        }

        impl VxDefault for CallMessage {
            open spec fn vx_is_default(r: Self) -> bool {
                r.ring_intention is None && r.ring_response is None && r.group_call_message is None
            }

            fn vx_default() -> (r: Self) {
                CallMessage { ring_intention: None, ring_response: None, group_call_message: None }
            }
        }
    }
}

// the bytes a message goes out as
pub uninterp spec fn wire(m: protobuf::group_call::DeviceToDevice) -> Seq<u8>;

pub uninterp spec fn wire_sfu(m: protobuf::group_call::DeviceToSfu) -> Seq<u8>;

pub trait VxDefault: Sized {
    spec fn vx_is_default(r: Self) -> bool;

    fn vx_default() -> (r: Self)
        ensures
            Self::vx_is_default(r),
    ;
}

// a message that carries a media key and nothing else
pub struct Key {
    pub group: Seq<u8>,
    pub device: u32,
    pub step: u32,
    pub secret: Seq<u8>,
}

pub open spec fn carries(m: protobuf::signaling::CallMessage, k: Key) -> bool {
    &&& m.ring_intention is None
    &&& m.ring_response is None
    &&& m.group_call_message matches Some(d) && (d.leaving is None && d.heartbeat is None && d.reaction is None
        && d.remote_mute_request is None && (d.group_id matches Some(g) && g@ == k.group)
        && (d.media_key matches Some(mk) && (mk.demux_id == Some(k.device) && mk.ratchet_counter == Some(k.step)
        && (mk.secret matches Some(s) && s@ == k.secret))))
}

// ---- what the client tells its surroundings -----------------------------------------------------
#[allow(inconsistent_fields)]
pub enum Act {
    Send { to: Seq<u8>, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency },
    SendGroup { group: Seq<u8>, to: Set<Seq<u8>>, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency },
    SendAdhoc { to: Set<Seq<u8>>, m: protobuf::signaling::CallMessage, u: SignalingMessageUrgency },
    DevicesChanged { why: RemoteDevicesChangedReason },
    AskForMembers,
    Rates(SendRates),
    PeekChanged { users: Set<Seq<u8>> },
    JoinState(JoinState),
    Ending,
    ObservedMute { source: DemuxId, target: DemuxId },
    Hands(Seq<DemuxId>),
    AskForProof,
    Connection(ConnectionState),
}

//% source src/rust/src/common/mod.rs
//% item enum CallEndReason derive=Clone,Copy
//% source src/rust/src/lite/sfu.rs
//% item type UserId
//% item type DemuxId
//% source src/rust/src/webrtc/rtp.rs
pub mod rtp {
//% item type PayloadType
//% item type SequenceNumber
//% item type Timestamp
//% item type Ssrc
//% item struct Header derive=Clone,Copy
}
//% source src/rust/src/core/group_call.rs
//% item type ClientId
//% item type GroupId
//% item struct RingId derive=Clone,Copy
//% item enum SignalingMessageUrgency derive=Clone,Copy
//% item enum GroupCallKind derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum JoinState derive=Clone,Copy
//% item enum ConnectionState derive=Clone,Copy
//% item struct RaiseHandState
//% item struct Reaction
//% item enum RemoteDevicesChangedReason
//% item enum KeyRotationState sub=frame_crypto::=> derive=Clone,Copy
//% item const MEDIA_SEND_KEY_ROTATION_DELAY_SECS
//% item struct HeartbeatState derive=Clone,Copy,PartialEq,Eq,Structural
//% item struct RemoteDeviceState sub=HashSet=>VSet
//% item struct RemoteDevices

// the observer, as a record of what it was told
pub struct Observer {
    pub log: Ghost<Seq<Act>>,
}

impl Observer {
    #[verifier::external_body]
    pub fn send_signaling_message(
        &mut self,
        recipient_id: UserId,
        call_message: protobuf::signaling::CallMessage,
        urgency: SignalingMessageUrgency,
    )
        ensures
            final(self).log@ == old(self).log@.push(Act::Send { to: recipient_id@, m: call_message, u: urgency }),
    {
    }

    #[verifier::external_body]
    pub fn send_signaling_message_to_group(
        &mut self,
        group_id: GroupId,
        call_message: protobuf::signaling::CallMessage,
        urgency: SignalingMessageUrgency,
        recipients_override: VSet<UserId>,
    )
        ensures
            final(self).log@ == old(self).log@.push(
                Act::SendGroup { group: group_id@, to: recipients_override@, m: call_message, u: urgency },
            ),
    {
    }

    #[verifier::external_body]
    pub fn send_signaling_message_to_adhoc_group(
        &mut self,
        call_message: protobuf::signaling::CallMessage,
        urgency: SignalingMessageUrgency,
        expiration: u64,
        recipients_to_endorsements: VxEndorsed,
    )
        ensures
            final(self).log@ == old(self).log@.push(
                Act::SendAdhoc { to: recipients_to_endorsements.to@, m: call_message, u: urgency },
            ),
    {
    }

    #[verifier::external_body]
    pub fn handle_remote_devices_changed(&mut self, client_id: ClientId, remote_devices: &RemoteDevices,
        reason: RemoteDevicesChangedReason)
        ensures
            final(self).log@ == old(self).log@.push(Act::DevicesChanged { why: reason }),
    {
    }

    #[verifier::external_body]
    pub fn handle_peek_changed(&mut self, client_id: ClientId, peek_info: &PeekInfo, joined_members: &VSet<UserId>)
        ensures
            final(self).log@ == old(self).log@.push(Act::PeekChanged { users: joined_members@ }),
    {
    }

    #[verifier::external_body]
    pub fn handle_join_state_changed(&mut self, client_id: ClientId, join_state: JoinState)
        ensures
            final(self).log@ == old(self).log@.push(Act::JoinState(join_state)),
    {
    }

    #[verifier::external_body]
    pub fn handle_send_rates_changed(&mut self, client_id: ClientId, rates: SendRates)
        ensures
            final(self).log@ == old(self).log@.push(Act::Rates(rates)),
    {
    }

    #[verifier::external_body]
    pub fn handle_observed_remote_mute(&mut self, client_id: ClientId, source: DemuxId, target: DemuxId)
        ensures
            final(self).log@ == old(self).log@.push(Act::ObservedMute { source, target }),
    {
    }

    #[verifier::external_body]
    pub fn handle_raised_hands(&mut self, client_id: ClientId, raised_hands: Vec<DemuxId>)
        ensures
            final(self).log@ == old(self).log@.push(Act::Hands(raised_hands@)),
    {
    }

    #[verifier::external_body]
    pub fn request_membership_proof(&mut self, client_id: ClientId)
        ensures
            final(self).log@ == old(self).log@.push(Act::AskForProof),
    {
    }

    #[verifier::external_body]
    pub fn handle_connection_state_changed(&mut self, client_id: ClientId, connection_state: ConnectionState)
        ensures
            final(self).log@ == old(self).log@.push(Act::Connection(connection_state)),
    {
    }

    #[verifier::external_body]
    pub fn request_group_members(&mut self, client_id: ClientId)
        ensures
            final(self).log@ == old(self).log@.push(Act::AskForMembers),
    {
    }
}

// group send endorsements: who they cover (the cache has its own contracts in endorsements.vt)
pub struct Timestamp {
    pub s: u64,
}

impl Clone for Timestamp {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        *self
    }
}

impl Copy for Timestamp {
}

impl Timestamp {
    fn epoch_seconds(&self) -> u64 {
        self.s
    }
}

pub struct VxEndorsed {
    pub to: Ghost<Set<Seq<u8>>>,
}

pub struct EndorsementsCache {
    pub e: u8,
}

pub uninterp spec fn endorsed(c: EndorsementsCache, e: Option<Timestamp>, ids: Set<Seq<u8>>) -> bool;

impl EndorsementsCache {
    #[verifier::external_body]
    fn get_endorsements_for_users(&self, epoch: Option<Timestamp>, ids: &Vec<UserId>) -> (r: Option<
        (Timestamp, VxEndorsed),
    >)
        ensures
            r matches Some(x) ==> x.1.to@ == view_set(ids@),
    {
        unimplemented!()
    }
}

#[verifier::external_body]
fn vx_to_vec(b: &[u8]) -> (r: Vec<u8>)
    ensures
        r@ == b@,
{
    b.to_vec()
}

// the actor, as a record of what it was asked to do later, and after how many seconds
pub struct Task {
    pub secret: Secret,
    pub expiration: Option<Timestamp>,
}

pub struct Actor {
    pub tasks: Ghost<Seq<(u64, Task)>>,
    pub asks: Ghost<Seq<u64>>,
    pub ends: Ghost<Seq<CallEndReason>>,
}

impl Actor {
    #[verifier::external_body]
    pub fn send_delayed(&mut self, after_s: u64, task: Task)
        ensures
            final(self).tasks@ == old(self).tasks@.push((after_s, task)),
            final(self).asks == old(self).asks,
            final(self).ends == old(self).ends,
    {
    }

    // ask the server for the list of devices later
    #[verifier::external_body]
    pub fn ask_delayed(&mut self, after_s: u64, what: ())
        ensures
            final(self).asks@ == old(self).asks@.push(after_s),
            final(self).tasks == old(self).tasks,
            final(self).ends == old(self).ends,
    {
    }

    // end the call a little later
    #[verifier::external_body]
    pub fn end_delayed(&mut self, reason: CallEndReason)
        ensures
            final(self).ends@ == old(self).ends@.push(reason),
            final(self).asks == old(self).asks,
            final(self).tasks == old(self).tasks,
    {
    }
}

// a secret nobody else knows: drawn from the operating system's generator
pub uninterp spec fn drawn(s: Secret) -> bool;

#[verifier::external_body]
fn vx_random_secret() -> (r: Secret)
    ensures
        drawn(r),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_replace<T>(at: &mut T, v: T) -> (r: T)
    ensures
        *final(at) == v,
        r == *old(at),
{
    std::mem::replace(at, v)
}

// Vec<u8> == Vec<u8>
#[verifier::external_body]
fn vx_same(a: &Vec<u8>, b: &Vec<u8>) -> (r: bool)
    ensures
        r == (a@ == b@),
{
    a == b
}

#[verifier::external_body]
fn vx_find_mut<T, F: Fn(&T) -> bool>(v: &mut Vec<T>, f: F) -> (r: Option<&mut T>)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> call_requires(f, (&(#[trigger] old(v)@[i]),)),
    ensures
        match r {
            Some(x) => exists|k: int|
                0 <= k < old(v)@.len() && old(v)@[k] == *x && final(v)@ == #[trigger] old(v)@.update(k, *final(x))
                    && call_ensures(f, (&old(v)@[k],), true) && forall|j: int|
                    0 <= j < k ==> call_ensures(f, (&(#[trigger] old(v)@[j]),), false),
            None => final(v)@ == old(v)@ && forall|j: int|
                0 <= j < old(v)@.len() ==> call_ensures(f, (&(#[trigger] old(v)@[j]),), false),
        },
{
    unimplemented!()
}

//% source src/rust/src/lite/sfu.rs
//% item struct PeekInfo fields=devices,pending_devices,creator,era_id
//% item struct PeekDeviceInfo
//% source src/rust/src/core/group_call.rs
//% item struct SfuInfo fields=ice_ufrag,ice_pwd
//% item enum RemoteDevicesRequestState
//% item enum OutgoingRingState

pub struct GroupCallSummary {
    pub x: u8,
}

//% source src/rust/src/lite/sfu.rs
//% item type GroupMemberId
//% item struct GroupMember
//% item type MembershipProof
//% source src/rust/src/core/group_call.rs

impl GroupCallSummary {
    #[verifier::external_body]
    pub fn on_connection_state_changed(&mut self, connection_state: ConnectionState) {
    }

    #[verifier::external_body]
    pub fn on_remote_devices_changed(&mut self, devices: &RemoteDevices) {
    }
}

//% source src/rust/src/webrtc/peer_connection.rs
//% item struct SendRates derive=PartialEq,Eq,Structural
//% source src/rust/src/core/group_call.rs

impl Clone for SendRates {
    fn clone(&self) -> (r: Self)
        ensures
            r == *self,
    {
        SendRates { min: self.min, start: self.start, max: self.max }
    }
}

impl VxDefault for SendRates {
    open spec fn vx_is_default(r: Self) -> bool {
        r.min is None && r.start is None && r.max is None
    }

    fn vx_default() -> (r: Self) {
        SendRates { min: None, start: None, max: None }
    }
}

//% item const ALL_ALONE_MAX_SEND_RATE ensures=ALL_ALONE_MAX_SEND_RATE.bps(){}=={}1000
//% item const SMALL_CALL_MAX_SEND_RATE ensures=SMALL_CALL_MAX_SEND_RATE.bps(){}=={}1_000_000
//% item const LARGE_CALL_MAX_SEND_RATE ensures=LARGE_CALL_MAX_SEND_RATE.bps(){}=={}671_000
//% item const SCREENSHARE_MIN_SEND_RATE ensures=SCREENSHARE_MIN_SEND_RATE.bps(){}=={}500_000
//% item const SCREENSHARE_START_SEND_RATE ensures=SCREENSHARE_START_SEND_RATE.bps(){}=={}1_000_000
//% item const SCREENSHARE_MAX_SEND_RATE ensures=SCREENSHARE_MAX_SEND_RATE.bps(){}=={}2_000_000

// WebRTC's peer connection, as a record of what it was told
#[allow(inconsistent_fields)]
pub enum Told {
    Recording(bool),
    Playout(bool),
    OutgoingMedia(bool),
    IncomingMedia(bool),
    Rates(SendRates),
    Rtp { header: rtp::Header, data: Seq<u8> },
    Codecs,
}

pub struct PeerConnection {
    pub told: Ghost<Seq<Told>>,
}

impl PeerConnection {
    #[verifier::external_body]
    pub fn set_audio_recording_enabled(&mut self, enabled: bool)
        ensures
            final(self).told@ == old(self).told@.push(Told::Recording(enabled)),
    {
    }

    #[verifier::external_body]
    pub fn set_audio_playout_enabled(&mut self, enabled: bool)
        ensures
            final(self).told@ == old(self).told@.push(Told::Playout(enabled)),
    {
    }

    #[verifier::external_body]
    pub fn set_outgoing_media_enabled(&mut self, enabled: bool)
        ensures
            final(self).told@ == old(self).told@.push(Told::OutgoingMedia(enabled)),
    {
    }

    #[verifier::external_body]
    pub fn set_incoming_media_enabled(&mut self, enabled: bool)
        ensures
            final(self).told@ == old(self).told@.push(Told::IncomingMedia(enabled)),
    {
    }

    #[verifier::external_body]
    pub fn send_rtp(&mut self, header: rtp::Header, data: &[u8]) -> (r: Result<(), VxError>)
        ensures
            r is Ok ==> final(self).told@ == old(self).told@.push(Told::Rtp { header, data: data@ }),
            r is Err ==> final(self).told@ == old(self).told@,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    pub fn set_send_rates(&mut self, rates: SendRates) -> (r: Result<(), VxError>)
        ensures
            r is Ok ==> final(self).told@ == old(self).told@.push(Told::Rates(rates)),
            r is Err ==> final(self).told@ == old(self).told@,
    {
        unimplemented!()
    }
}

//% item enum BweCheckState derive=Clone,Copy

#[verifier::external_body]
fn vx_system_now() -> SystemTime {
    unimplemented!()
}

// a reading of the clock
pub uninterp spec fn a_time(t: Instant) -> bool;

#[verifier::external_body]
fn vx_later() -> (r: Instant)
    ensures
        a_time(r),
{
    unimplemented!()
}

// the connection to the calling server, as a record of what it was asked
#[allow(inconsistent_fields)]
pub enum Asked {
    Peek,
    Join,
    Members,
    Proof,
}

pub struct SfuClient {
    pub log: Ghost<Seq<Asked>>,
}

impl SfuClient {
    #[verifier::external_body]
    pub fn peek(&mut self)
        ensures
            final(self).log@ == old(self).log@.push(Asked::Peek),
    {
    }

    #[verifier::external_body]
    pub fn join(&mut self)
        ensures
            final(self).log@ == old(self).log@.push(Asked::Join),
    {
    }

    #[verifier::external_body]
    pub fn set_group_members(&mut self, members: Vec<GroupMember>)
        ensures
            final(self).log@ == old(self).log@.push(Asked::Members),
    {
    }

    #[verifier::external_body]
    pub fn set_membership_proof(&mut self, proof: MembershipProof)
        ensures
            final(self).log@ == old(self).log@.push(Asked::Proof),
    {
    }
}


pub struct Client {
    pub client_id: ClientId,
}

// ---- sending a media key ------------------------------------------------------------------------
// whom an act addresses
pub open spec fn addressed(a: Act) -> Set<Seq<u8>> {
    match a {
        Act::Send { to, .. } => set![to],
        Act::SendGroup { to, .. } => to,
        Act::SendAdhoc { to, .. } => to,
        _ => Set::empty(),
    }
}

pub open spec fn key_act(a: Act, k: Key, group: Seq<u8>) -> bool {
    match a {
        Act::Send { m, u, .. } => carries(m, k) && u is Droppable,
        Act::SendGroup { group: g, m, u, to } => carries(m, k) && u is Droppable && g == group && to != Set::<Seq<u8>>::empty(),
        Act::SendAdhoc { m, u, .. } => carries(m, k) && u is Droppable,
        _ => false,
    }
}

// acts send k to the users of `to`, to each once, and to nobody else
pub open spec fn sent_exactly(acts: Seq<Act>, k: Key, group: Seq<u8>, to: Set<Seq<u8>>) -> bool
    decreases acts.len(),
{
    if acts.len() == 0 {
        to == Set::<Seq<u8>>::empty()
    } else {
        &&& key_act(acts.last(), k, group)
        &&& addressed(acts.last()).subset_of(to)
        &&& sent_exactly(acts.drop_last(), k, group, to.difference(addressed(acts.last())))
    }
}

pub open spec fn self_apart(acts: Seq<Act>, me: Option<UserId>) -> bool {
    forall|i: int|
        0 <= i < acts.len() ==> match #[trigger] acts[i] {
            Act::Send { .. } => true,
            a => me matches Some(u) ==> !addressed(a).contains(u@),
        }
}

pub open spec fn without(s: Set<Seq<u8>>, me: Option<UserId>) -> Set<Seq<u8>> {
    match me {
        Some(u) => s.remove(u@),
        None => s,
    }
}

// the log grew by sending k to exactly `to`
pub open spec fn key_sent(before: State, after: State, k: Key, to: Set<Seq<u8>>) -> bool {
    let n = before.observer.log@.len() as int;
    &&& after.observer.log@.len() >= n
    &&& after.observer.log@.take(n) == before.observer.log@
    &&& sent_exactly(after.observer.log@.skip(n), k, before.group_id@, to)
    &&& self_apart(after.observer.log@.skip(n), before.self_uuid)
}

proof fn sent_push(acts: Seq<Act>, a: Act, k: Key, group: Seq<u8>, to: Set<Seq<u8>>)
    requires
        sent_exactly(acts, k, group, to),
        key_act(a, k, group),
        to.disjoint(addressed(a)),
    ensures
        sent_exactly(acts.push(a), k, group, to.union(addressed(a))),
{
    assert(acts.push(a).drop_last() =~= acts);
    assert(to.union(addressed(a)).difference(addressed(a)) =~= to);
}

proof fn walk_step<T: View>(s: Seq<T>)
    requires
        s.len() > 0,
        views(s).no_duplicates(),
    ensures
        view_set(s) == view_set(s.subrange(1, s.len() as int)).insert(s[0]@),
        !view_set(s.subrange(1, s.len() as int)).contains(s[0]@),
        views(s.subrange(1, s.len() as int)).no_duplicates(),
{
    let t = s.subrange(1, s.len() as int);
    let v = views(s);
    let w = views(t);
    assert forall|x: T::V| view_set(s).contains(x) == view_set(t).insert(s[0]@).contains(x) by {
        if view_set(s).contains(x) {
            let i = v.index_of(x);
            assert(v[i] == x);
            if i > 0 {
                assert(w[i - 1] == x);
                assert(w.contains(x));
            }
        }
        if view_set(t).contains(x) {
            let i = w.index_of(x);
            assert(w[i] == x && v[i + 1] == x);
            assert(v.contains(x));
        }
        assert(v[0] == s[0]@);
    }
    assert(view_set(s) =~= view_set(t).insert(s[0]@));
    assert(!view_set(t).contains(s[0]@)) by {
        if w.contains(s[0]@) {
            let i = w.index_of(s[0]@);
            assert(v[i + 1] == v[0]);
        }
    }
    assert forall|i: int, j: int| 0 <= i < w.len() && 0 <= j < w.len() && i != j implies w[i] != w[j] by {
        assert(w[i] == v[i + 1] && w[j] == v[j + 1]);
    }
}

// one more act of sending
broadcast proof fn one_more_act(log: Seq<Act>, a: Act, key: Key, group: Seq<u8>, me: Option<UserId>, done: Set<Seq<u8>>, n: int)
    requires
        0 <= n <= log.len(),
        sent_exactly(log.skip(n), key, group, done),
        self_apart(log.skip(n), me),
        key_act(a, key, group),
        addressed(a).disjoint(done),
        a is Send || (me matches Some(u) ==> !addressed(a).contains(u@)),
    ensures
        #![trigger log.push(a), sent_exactly(log.skip(n), key, group, done), self_apart(log.skip(n), me)]
        log.push(a).take(n) == log.take(n),
        sent_exactly(log.push(a).skip(n), key, group, done.union(addressed(a))),
        self_apart(log.push(a).skip(n), me),
{
    assert(log.push(a).take(n) =~= log.take(n));
    assert(log.push(a).skip(n) =~= log.skip(n).push(a));
    sent_push(log.skip(n), a, key, group, done);
    assert forall|i: int| 0 <= i < log.push(a).skip(n).len() implies match #[trigger] log.push(a).skip(n)[i] {
        Act::Send { .. } => true,
        b => me matches Some(u) ==> !addressed(b).contains(u@),
    } by {
        if i < log.skip(n).len() {
            assert(log.push(a).skip(n)[i] == log.skip(n)[i]);
        }
    }
}

// one more user of a walk
proof fn one_more_user(rest: Seq<UserId>, who: UserId, all: Set<Seq<u8>>)
    requires
        views(seq![who] + rest).no_duplicates(),
        view_set(seq![who] + rest).subset_of(all),
    ensures
        views(rest).no_duplicates(),
        view_set(rest).subset_of(all),
        all.difference(view_set(seq![who] + rest)).disjoint(set![who@]),
        all.difference(view_set(seq![who] + rest)).union(set![who@]) == all.difference(view_set(rest)),
{
    let s = seq![who] + rest;
    assert(s.subrange(1, s.len() as int) =~= rest);
    walk_step(s);
    assert(all.difference(view_set(s)).union(set![who@]) =~= all.difference(view_set(rest)));
}

impl Client {
    //% fn Client::send_media_send_key_to_users_over_signaling
        ensures
            *final(state) == (State { observer: final(state).observer, ..*old(state) }),
            key_sent(
                *old(state),
                *final(state),
                Key { group: old(state).group_id@, device: local_demux_id, step: ratchet_counter as u32, secret: secret@ },
                recipients@,
            ),
    //% head
        let ghost vx_key = Key { group: state.group_id@, device: local_demux_id, step: ratchet_counter as u32, secret: secret@ };
        let ghost vx_n = state.observer.log@.len() as int;
        let ghost vx_all = without(recipients@, state.self_uuid);
        broadcast use set_order_is, one_more_act;
        proof {
            assert(state.observer.log@.skip(vx_n) =~= Seq::<Act>::empty());
            assert(state.observer.log@.take(vx_n) =~= state.observer.log@);
            assert(sent_exactly(state.observer.log@.skip(vx_n), vx_key, state.group_id@, Set::<Seq<u8>>::empty()));
            assert(self_apart(state.observer.log@.skip(vx_n), state.self_uuid));
            assert(vx_all.difference(vx_all) =~= Set::<Seq<u8>>::empty());
            assert(vx_all.difference(Set::empty()) =~= vx_all);
            assert(Set::<Seq<u8>>::empty().union(vx_all) =~= vx_all);
            if let Some(u) = &state.self_uuid {
                assert(recipients@.contains(u@) ==> vx_all.union(set![u@]) =~= recipients@);
                assert(!recipients@.contains(u@) ==> vx_all =~= recipients@);
            }
        }
    //% loop 0
        invariant
            *state == (State { observer: state.observer, ..*old(state) }),
            carries(call_message, vx_key),
            0 <= vx_n <= state.observer.log@.len(),
            state.observer.log@.take(vx_n) == old(state).observer.log@,
            views(vx_it_0@).no_duplicates(),
            view_set(vx_it_0@).subset_of(vx_all),
            sent_exactly(state.observer.log@.skip(vx_n), vx_key, old(state).group_id@, vx_all.difference(view_set(vx_it_0@))),
            self_apart(state.observer.log@.skip(vx_n), old(state).self_uuid),
        ensures
            view_set(vx_it_0@) == Set::<Seq<u8>>::empty(),
        decreases vx_it_0@.len(),
    //% loophead 0
        broadcast use one_more_act;
        proof {
            one_more_user(vx_it_0@, recipient_id, vx_all);
        }
    //% loop 1
        invariant
            *state == (State { observer: state.observer, ..*old(state) }),
            carries(call_message, vx_key),
            0 <= vx_n <= state.observer.log@.len(),
            state.observer.log@.take(vx_n) == old(state).observer.log@,
            views(vx_it_1@).no_duplicates(),
            view_set(vx_it_1@).subset_of(vx_all),
            sent_exactly(state.observer.log@.skip(vx_n), vx_key, old(state).group_id@, vx_all.difference(view_set(vx_it_1@))),
            self_apart(state.observer.log@.skip(vx_n), old(state).self_uuid),
        ensures
            view_set(vx_it_1@) == Set::<Seq<u8>>::empty(),
        decreases vx_it_1@.len(),
    //% loophead 1
        broadcast use one_more_act;
        proof {
            one_more_user(vx_it_1@, recipient_id, vx_all);
        }
    //% sub? HashSet ==> VSet
    //% sub? frame_crypto:: ==> 
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% sub (\w+)\.to_vec\(\) ==> vx_to_vec(&\1)
    //% sub state\s*\.self_uuid\s*\.lock\(\)\s*\.expect\("[^"]*"\)\s*\.deref\(\) ==> &state.self_uuid
    //% sub recipients\.iter\(\) ==> &recipients
    //% sub let recipients_to_endorsements = recipients_to_endorsements\s*\.into_iter\(\)\s*\.map\(.*?\)\s*\.collect\(\); ==> 
    //% end
}


// ---- the device list ----------------------------------------------------------------------------
// where the first device with that id stands; the length when there is none
pub open spec fn spot(s: Seq<RemoteDeviceState>, id: DemuxId) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else if s[0].demux_id == id {
        0
    } else {
        1 + spot(s.subrange(1, s.len() as int), id)
    }
}

proof fn spot_bounds(s: Seq<RemoteDeviceState>, id: DemuxId)
    ensures
        0 <= spot(s, id) <= s.len(),
        spot(s, id) < s.len() ==> s[spot(s, id)].demux_id == id,
        forall|j: int| 0 <= j < spot(s, id) ==> (#[trigger] s[j]).demux_id != id,
    decreases s.len(),
{
    if s.len() > 0 && s[0].demux_id != id {
        let t = s.subrange(1, s.len() as int);
        spot_bounds(t, id);
        assert forall|j: int| 0 <= j < spot(s, id) implies (#[trigger] s[j]).demux_id != id by {
            if j > 0 {
                assert(s[j] == t[j - 1]);
            }
        }
    }
}

proof fn spot_is(s: Seq<RemoteDeviceState>, id: DemuxId, k: int)
    requires
        0 <= k <= s.len(),
        k < s.len() ==> s[k].demux_id == id,
        forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).demux_id != id,
    ensures
        spot(s, id) == k,
{
    spot_bounds(s, id);
    if spot(s, id) < k {
        assert(s[spot(s, id)].demux_id != id);
    }
}

broadcast proof fn spot_found(s: Seq<RemoteDeviceState>, id: DemuxId, k: int)
    requires
        0 <= k < s.len(),
        s[k].demux_id == id,
        forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).demux_id != id,
    ensures
        #![trigger spot(s, id), s[k]]
        spot(s, id) == k,
{
    spot_is(s, id, k);
}

pub open spec fn users_of(s: Seq<RemoteDeviceState>) -> Set<Seq<u8>> {
    s.map_values(|d: RemoteDeviceState| d.user_id@).to_set()
}

pub open spec fn ids_of(s: Seq<RemoteDeviceState>) -> Set<DemuxId> {
    s.map_values(|d: RemoteDeviceState| d.demux_id).to_set()
}

broadcast proof fn users_collected(s: Seq<RemoteDeviceState>, u: Seq<UserId>)
    requires
        s.len() == u.len(),
        forall|i: int| #![trigger u[i]] 0 <= i < s.len() ==> u[i]@ == s[i].user_id@,
    ensures
        #![trigger users_of(s), view_set(u)]
        users_of(s) == view_set(u),
{
    assert(s.map_values(|d: RemoteDeviceState| d.user_id@) =~= views(u));
}

broadcast proof fn ids_collected(s: Seq<RemoteDeviceState>, u: Seq<DemuxId>)
    requires
        s.len() == u.len(),
        forall|i: int| #![trigger u[i]] 0 <= i < s.len() ==> u[i] == s[i].demux_id,
    ensures
        #![trigger ids_of(s), view_set(u)]
        ids_of(s) == view_set(u),
{
    assert(s.map_values(|d: RemoteDeviceState| d.demux_id) =~= views(u));
}

impl RemoteDevices {
    //% fn RemoteDevices::find_by_demux_id
        ensures
            r is Some == (spot(self.0@, demux_id) < self.0@.len()),
            r matches Some(d) ==> *d == self.0@[spot(self.0@, demux_id)],
            0 <= spot(self.0@, demux_id) <= self.0@.len(),
    //% head
        broadcast use spot_found;
        proof {
            spot_bounds(self.0@, demux_id);
        }
    //% sub self\s*\.iter\(\) ==> self.0.vx_iter()
    //% closure 0
        |device: &&RemoteDeviceState| -> (b: bool)
            ensures
                b == (device.demux_id == demux_id),
    //% end

    //% fn RemoteDevices::find_by_demux_id_mut
        ensures
            r is Some == (spot(old(self).0@, demux_id) < old(self).0@.len()),
            0 <= spot(old(self).0@, demux_id) <= old(self).0@.len(),
            r matches Some(d) ==> *d == old(self).0@[spot(old(self).0@, demux_id)]
                && final(self).0@ == old(self).0@.update(spot(old(self).0@, demux_id), *final(d)),
            r is None ==> final(self).0@ == old(self).0@,
    //% head
        broadcast use spot_found;
        proof {
            spot_bounds(self.0@, demux_id);
        }
    //% sub self\.0\.iter_mut\(\)\s*\.find\( ==> vx_find_mut(&mut self.0, 
    //% closure 0
        |device: &RemoteDeviceState| -> (b: bool)
            ensures
                b == (device.demux_id == demux_id),
    //% end

    //% fn RemoteDevices::demux_id_set
        ensures
            r@ == ids_of(self.0@),
    //% head
        broadcast use ids_collected;
    //% sub? HashSet ==> VSet
    //% sub self\s*\.iter\(\) ==> self.0.vx_iter()
    //% closure 0
        |device: &RemoteDeviceState| -> (v: DemuxId)
            ensures
                v == device.demux_id,
    //% end
}

// ---- changing the media key ---------------------------------------------------------------------
pub open spec fn my_device(s: State) -> Option<DemuxId> {
    match s.join_state {
        JoinState::Pending(d) => Some(d),
        JoinState::Joined(d) => Some(d),
        _ => None,
    }
}

// k was sent to the users `to`, if this device is in the call at all
pub open spec fn key_sent_if_in(before: State, after: State, step: u32, secret: Seq<u8>, to: Set<Seq<u8>>) -> bool {
    match my_device(before) {
        Some(d) => key_sent(before, after, Key { group: before.group_id@, device: d, step, secret }, to),
        None => after.observer == before.observer,
    }
}

// a new key was drawn and announced to everyone still there, to be used five seconds later; when one
// is on its way already, only the wish for another one is noted
pub open spec fn rotated(before: State, after: State, expiration: Option<Timestamp>) -> bool {
    match before.media_send_key_rotation_state {
        KeyRotationState::Pending { secret, .. } => after == (State {
            media_send_key_rotation_state: KeyRotationState::Pending { secret, needs_another_rotation: true },
            ..before
        }),
        KeyRotationState::Applied => {
            &&& after.media_send_key_rotation_state matches KeyRotationState::Pending { secret, needs_another_rotation } && {
                &&& !needs_another_rotation
                &&& drawn(secret)
                &&& key_sent_if_in(before, after, 0, secret@, users_of(before.remote_devices.0@))
                &&& after.actor.tasks@ == before.actor.tasks@.push((5, Task { secret, expiration }))
                &&& after == (State {
                    observer: after.observer,
                    actor: after.actor,
                    media_send_key_rotation_state: after.media_send_key_rotation_state,
                    ..before
                })
            }
        },
    }
}

spec fn reset_to(before: Context, after: Context, secret: Seq<u8>) -> bool {
    &&& after.wf()
    &&& after.sender_state.current_secret@ == secret
    &&& after.sender_state.ratchet_counter == 0
    &&& after.next_frame_counter == before.next_frame_counter
    &&& after.remote_states_by_id == before.remote_states_by_id
    &&& after.decryption_error_tracker == before.decryption_error_tracker
}

spec fn stepped_on(before: Context, after: Context) -> bool {
    &&& after.wf()
    &&& after.sender_state.current_secret@ == next_secret(before.sender_state.current_secret@)
    &&& after.sender_state.ratchet_counter == (before.sender_state.ratchet_counter + 1) % 256
    &&& after.next_frame_counter == before.next_frame_counter
    &&& after.remote_states_by_id == before.remote_states_by_id
    &&& after.decryption_error_tracker == before.decryption_error_tracker
}

// a receive key for that device went first in its list, at most five are kept
spec fn learned(before: Context, after: Context, id: DemuxId, counter: u8, secret: Seq<u8>) -> bool {
    let was = before.of(id);
    let now = after.of(id);
    &&& after.wf()
    &&& after.but(before, id)
    &&& after.decryption_error_tracker == before.decryption_error_tracker
    &&& now.len() == if was.len() < 5 { was.len() + 1 } else { 5 }
    &&& now[0].v() == (RS { cur: secret, rc: counter, frame: 0, old: secret, orc: counter })
    &&& forall|i: int| #![trigger now[i]] 1 <= i < now.len() ==> now[i] == was[i - 1]
}

broadcast proof fn one_pushed<T>(s: Seq<T>, x: T)
    ensures
        (#[trigger] s.push(x)).drop_last() == s,
{
    assert(s.push(x).drop_last() =~= s);
}

broadcast proof fn nothing_updated<T>(s: Seq<T>, k: int)
    requires
        0 <= k < s.len(),
    ensures
        #[trigger] s.update(k, s[k]) == s,
{
    assert(s.update(k, s[k]) =~= s);
}

// a received key counts only for a device of the user who sent it
spec fn key_taken(before: State, after: State, user: Seq<u8>, id: DemuxId, counter: u8, secret: Secret) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, id);
    if k < devs.len() && devs[k].user_id@ == user {
        &&& learned(before.frame_crypto_context, after.frame_crypto_context, id, counter, secret@)
        &&& after.remote_devices.0@ == devs.update(k, RemoteDeviceState { media_keys_received: true, ..devs[k] })
        &&& after.observer.log@ == if devs[k].media_keys_received {
            before.observer.log@
        } else {
            before.observer.log@.push(Act::DevicesChanged { why: RemoteDevicesChangedReason::MediaKeyReceived(id) })
        }
        &&& after == (State {
            observer: after.observer,
            frame_crypto_context: after.frame_crypto_context,
            remote_devices: after.remote_devices,
            ..before
        })
    } else if k < devs.len() {
        &&& after.remote_devices.0@ == devs
        &&& after == (State { remote_devices: after.remote_devices, ..before })
    } else {
        &&& after.remote_devices.0@ == devs
        &&& after.pending_media_receive_keys@.len() == before.pending_media_receive_keys@.len() + 1
        &&& after.pending_media_receive_keys@.drop_last() == before.pending_media_receive_keys@
        &&& ({
            let x = after.pending_media_receive_keys@.last();
            x.0@ == user && x.1 == id && x.2 == counter && x.3 == secret
        })
        &&& after.observer.log@ == if before.pending_media_receive_keys@.len() == 0 && before.kind is SignalGroup {
            before.observer.log@.push(Act::AskForMembers)
        } else {
            before.observer.log@
        }
        &&& after == (State {
            observer: after.observer,
            remote_devices: after.remote_devices,
            pending_media_receive_keys: after.pending_media_receive_keys,
            ..before
        })
    }
}

impl Client {
    //% fn Client::rotate_media_send_key_and_send_to_users_not_removed
        ensures
            rotated(*old(state), *final(state), endorsements_expiration),
    //% head
        broadcast use users_collected;
    //% sub? HashSet ==> VSet
    //% sub? frame_crypto:: ==> 
    //% sub random_secret\(&mut rand::rngs::OsRng\) ==> vx_random_secret()
    //% sub state\s*\.remote_devices\s*\.iter\(\) ==> state.remote_devices.0.vx_iter()
    //% sub Duration::from_secs\((\w+)\) ==> \1
    //% closure 0
        |rd: &RemoteDeviceState| -> (v: UserId)
            ensures
                v@ == rd.user_id@,
    //% closure 1
        $REPLACE Task { secret, expiration: endorsements_expiration }
    //% end

    //% fn Client::rotate_media_send_key_and_send_to_users_not_removed#1 as apply_rotated_key
        requires
            old(state).frame_crypto_context.wf(),
        ensures
            reset_to(old(state).frame_crypto_context, final(state).frame_crypto_context, secret@),
            ({
                let applied = State {
                    frame_crypto_context: final(state).frame_crypto_context,
                    media_send_key_rotation_state: KeyRotationState::Applied,
                    ..*old(state)
                };
                match old(state).media_send_key_rotation_state {
                    KeyRotationState::Pending { needs_another_rotation: true, .. } => rotated(
                        applied,
                        *final(state),
                        endorsements_expiration,
                    ),
                    _ => *final(state) == applied,
                }
            }),
    //% sig fn apply_rotated_key(state: &mut State, secret: Secret, endorsements_expiration: Option<Timestamp>)
    //% sub state\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\([^()]*\) ==> &mut state.frame_crypto_context
    //% end

    //% fn Client::advance_media_send_key_and_send_to_users_with_added_devices
        requires
            old(state).frame_crypto_context.wf(),
        ensures
            stepped_on(old(state).frame_crypto_context, final(state).frame_crypto_context),
            key_sent_if_in(
                *old(state),
                *final(state),
                final(state).frame_crypto_context.sender_state.ratchet_counter as u32,
                final(state).frame_crypto_context.sender_state.current_secret@,
                users_with_added_devices@,
            ),
            *final(state) == (State {
                observer: final(state).observer,
                frame_crypto_context: final(state).frame_crypto_context,
                ..*old(state)
            }),
    //% sub? HashSet ==> VSet
    //% sub state\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\([^()]*\) ==> &mut state.frame_crypto_context
    //% end

    //% fn Client::send_pending_media_send_key_to_users_with_added_devices
        ensures
            match old(state).media_send_key_rotation_state {
                KeyRotationState::Pending { secret, .. } => key_sent_if_in(
                    *old(state),
                    *final(state),
                    0,
                    secret@,
                    users_with_added_devices@,
                ),
                KeyRotationState::Applied => final(state).observer == old(state).observer,
            },
            *final(state) == (State { observer: final(state).observer, ..*old(state) }),
    //% sub? HashSet ==> VSet
    //% end

    //% fn Client::add_media_receive_key_or_store_for_later
        requires
            old(state).frame_crypto_context.wf(),
        ensures
            key_taken(*old(state), *final(state), user_id@, demux_id, ratchet_counter, secret),
            final(state).frame_crypto_context.wf(),
    //% head
        broadcast use one_pushed, nothing_updated;
    //% sub? frame_crypto:: ==> 
    //% sub state\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\([^()]*\) ==> &mut state.frame_crypto_context
    //% sub std::mem::replace\( ==> vx_replace(
    //% sub? (\w+\.user_id) == user_id ==> vx_same(&\1, &user_id)
    //% sub? (\w+\.user_id) != user_id ==> !vx_same(&\1, &user_id)
    //% end
}

// ---- send rates ---------------------------------------------------------------------------------
spec fn bps_is(r: Option<DataRate>, n: Option<int>) -> bool {
    match (r, n) {
        (Some(x), Some(y)) => x.bps() == y,
        (None, None) => true,
        _ => false,
    }
}

// alone: next to nothing; sharing a screen: 500 kbps to 2 Mbps; up to seven others: 1 Mbps; else 671 kbps
spec fn rates_for(others: int, sharing: bool, r: SendRates) -> bool {
    if others == 0 {
        bps_is(r.min, None) && bps_is(r.start, None) && bps_is(r.max, Some(1000int))
    } else if sharing {
        bps_is(r.min, Some(500_000int)) && bps_is(r.start, Some(1_000_000int)) && bps_is(r.max, Some(2_000_000int))
    } else if others <= 7 {
        bps_is(r.min, None) && bps_is(r.start, None) && bps_is(r.max, Some(1_000_000int))
    } else {
        bps_is(r.min, None) && bps_is(r.start, None) && bps_is(r.max, Some(671_000int))
    }
}

// what is told to WebRTC about media when the rates change
spec fn media_told(alone: bool) -> Seq<Told> {
    if alone {
        seq![Told::Recording(false), Told::OutgoingMedia(false), Told::Playout(false)]
    } else {
        seq![Told::Playout(true), Told::OutgoingMedia(true), Told::Recording(true)]
    }
}

spec fn is_alone_rate(r: SendRates) -> bool {
    r.max matches Some(m) && m.bps() == 1000
}

// new rates (or the override) are in force and announced when they differ from the old ones
spec fn rates_set(before: State, after: State, wanted: SendRates) -> bool {
    let rates = match before.send_rates_override {
        Some(o) => o,
        None => wanted,
    };
    if rates == before.send_rates {
        after == before
    } else {
        let told = before.peer_connection.told@ + media_told(is_alone_rate(rates));
        &&& after == (State {
            peer_connection: after.peer_connection,
            bwe_check_state: after.bwe_check_state,
            observer: after.observer,
            send_rates: after.send_rates,
            ..before
        })
        &&& {
            ||| {
                &&& after.send_rates == rates
                &&& after.peer_connection.told@ == told.push(Told::Rates(rates))
                &&& after.observer.log@ == before.observer.log@.push(Act::Rates(rates))
            }
            ||| {
                // WebRTC refused
                &&& after.send_rates == before.send_rates
                &&& after.peer_connection.told@ == told
                &&& after.observer.log@ == before.observer.log@
            }
        }
    }
}

impl Client {
    //% fn Client::compute_send_rates
        ensures
            rates_for(joined_member_count as int, sharing_screen, r),
    //% sub SendRates::default\(\) ==> SendRates::vx_default()
    //% end

    //% fn Client::set_send_rates_inner
        ensures
            rates_set(*old(state), *final(state), send_rates),
    //% head
        proof {
            let t = state.peer_connection.told@;
            assert(t.push(Told::Recording(false)).push(Told::OutgoingMedia(false)).push(Told::Playout(false)) =~= t
                + media_told(true));
            assert(t.push(Told::Playout(true)).push(Told::OutgoingMedia(true)).push(Told::Recording(true)) =~= t
                + media_told(false));
        }
    //% sub? Instant::now\(\) \+ BWE_INTERVAL ==> vx_later()
    //% sub? state\.bwe_check_state == BweCheckState::(\w+) ==> matches!(state.bwe_check_state, BweCheckState::\1)
    //% end
}

// ---- asking the server for the list of devices ---------------------------------------------------
#[verifier::external_body]
fn vx_after(t: Instant, s: u64) -> (r: Instant)
    ensures
        r.ns == after_s(t, s),
{
    unimplemented!()
}

// a point in time some seconds after another (time does not run over)
pub open spec fn after_s(t: Instant, s: u64) -> u64 {
    if t.ns + s * 1_000_000_000 <= u64::MAX { (t.ns + s * 1_000_000_000) as u64 } else { u64::MAX }
}

pub open spec fn devices_due(s: RemoteDevicesRequestState, max_age: u64, now: Instant) -> bool {
    match s {
        RemoteDevicesRequestState::WaitingForMembershipProof => false,
        RemoteDevicesRequestState::NeverRequested => true,
        RemoteDevicesRequestState::Requested { at, .. } => now.ns > after_s(at, 5),
        RemoteDevicesRequestState::Updated { at } => now.ns >= after_s(at, max_age),
        RemoteDevicesRequestState::Failed { at } => now.ns > after_s(at, 5),
    }
}

// the server is asked when that is due; else, when wanted at once and a request is under way, to be asked again
pub open spec fn devices_asked(before: State, max_age: u64, again: bool, now: Instant, after: State) -> bool {
    if devices_due(before.remote_devices_request_state, max_age, now) {
        &&& after.sfu_client.log@ == before.sfu_client.log@.push(Asked::Peek)
        &&& after.remote_devices_request_state matches RemoteDevicesRequestState::Requested { should_request_again, .. }
            && !should_request_again
        &&& after == (State {
            sfu_client: after.sfu_client,
            remote_devices_request_state: after.remote_devices_request_state,
            ..before
        })
    } else {
        match before.remote_devices_request_state {
            RemoteDevicesRequestState::Requested { at, .. } if again => after == (State {
                remote_devices_request_state: RemoteDevicesRequestState::Requested { should_request_again: true, at },
                ..before
            }),
            _ => after == before,
        }
    }
}

impl Client {
    //% fn Client::request_remote_devices_as_soon_as_possible
        ensures
            exists|now: Instant| #[trigger] a_time(now) && devices_asked(*old(state), 0, true, now, *final(state)),
    //% sub Duration::from_secs\((\w+)\) ==> \1
    //% end

    //% fn Client::request_remote_devices_from_sfu_if_older_than
        ensures
            exists|now: Instant| #[trigger] a_time(now) && devices_asked(*old(state), max_age, false, now, *final(state)),
    //% sub? max_age: Duration ==> max_age: u64
    //% end

    //% fn Client::maybe_request_remote_devices
        ensures
            exists|now: Instant| #[trigger] a_time(now) && devices_asked(*old(state), max_age, rerequest_if_pending, now, *final(state)),
    //% sub? max_age: Duration ==> max_age: u64
    //% sub? Instant::now\(\) ==> vx_later()
    //% sub? (\w+_time) \+ Duration::from_secs\((\w+)\) ==> vx_after(\1, \2)
    //% sub? (\w+_time) \+ max_age ==> vx_after(\1, max_age)
    //% sub let actor = state\.actor\.clone\(\); ==> 
    //% sub state\s*\.sfu_client\s*\.peek\(Box::new\(move \|peek_info\| \{\s*actor\.send\(move \|state\| \{\s*Self::set_peek_result_inner\(state, peek_info, None\);\s*\}\);\s*\}\)\); ==> state.sfu_client.peek();
    //% after let now = 
        let ghost vx_now = now;
    //% before if should_request_now
        proof { assert(should_request_now == devices_due(state.remote_devices_request_state, max_age, now)); }
    //% end
}

// ---- ring ids -----------------------------------------------------------------------------------
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;

pub uninterp spec fn sha256(b: Seq<u8>) -> Seq<u8>;

// a number in base 16, as u64::from_str_radix reads it
pub uninterp spec fn hex_number(b: Seq<u8>) -> Option<u64>;

#[verifier::external_body]
fn vx_byte_len(s: &str) -> (r: usize)
    ensures
        r == utf8(s@).len(),
{
    s.len()
}

#[verifier::external_body]
fn vx_from_hex(s: &str) -> (r: Result<u64, VxError>)
    ensures
        r is Ok == hex_number(utf8(s@)) is Some,
        r matches Ok(n) ==> hex_number(utf8(s@)) == Some(n),
{
    unimplemented!()
}

// the first eight bytes of the SHA-256 of a text
#[verifier::external_body]
fn vx_hash8(s: &str) -> (r: [u8; 8])
    ensures
        r@ == sha256(utf8(s@)).subrange(0, 8),
{
    unimplemented!()
}

pub open spec fn le_i64(b: Seq<u8>) -> i64 {
    (b[0] as int + 0x100 * b[1] + 0x10000 * b[2] + 0x1000000 * b[3] + 0x100000000 * b[4] + 0x10000000000 * b[5]
        + 0x1000000000000 * b[6] + 0x100000000000000 * b[7]) as i64
}

#[verifier::external_body]
fn vx_i64_from_le(b: [u8; 8]) -> (r: i64)
    ensures
        r == le_i64(b@),
{
    i64::from_le_bytes(b)
}

pub open spec fn ring_id_of(era: Seq<u8>) -> i64 {
    if era.len() == 16 && hex_number(era) is Some {
        if hex_number(era) == Some(0u64) {
            -1i64
        } else {
            hex_number(era).unwrap() as i64
        }
    } else {
        le_i64(sha256(era).subrange(0, 8))
    }
}

impl RingId {
    //% fn RingId::from_era_id
        ensures
            r.0 == ring_id_of(utf8(era_id@)),
    //% sub? era_id\.len\(\) ==> vx_byte_len(era_id)
    //% sub? u64::from_str_radix\(era_id, 16\) ==> vx_from_hex(era_id)
    //% sub? Sha256::digest\(era_id\.as_bytes\(\)\)\.as_slice\(\)\[\.\.8\]\s*\.try_into\(\)\s*\.unwrap\(\) ==> vx_hash8(era_id)
    //% sub? i64::from_le_bytes ==> vx_i64_from_le
    //% sub? return Self\(i as i64\) ==> return Self(#[verifier::truncate] (i as i64))
    //% end
}

// two era ids of sixteen hex digits share a ring id only when one is zero and the other is all ones
proof fn ring_ids_differ(a: Seq<u8>, b: Seq<u8>)
    requires
        a.len() == 16,
        b.len() == 16,
        hex_number(a) is Some,
        hex_number(b) is Some,
        ring_id_of(a) == ring_id_of(b),
    ensures
        hex_number(a) == hex_number(b) || (hex_number(a) == Some(0u64) && hex_number(b) == Some(u64::MAX)) || (
        hex_number(a) == Some(u64::MAX) && hex_number(b) == Some(0u64)),
        ring_id_of(a) != 0,
{
    let x = hex_number(a).unwrap();
    let y = hex_number(b).unwrap();
    assert(forall|p: u64, q: u64| (#[trigger] (p as i64)) == (#[trigger] (q as i64)) ==> p == q) by (bit_vector);
    assert(forall|p: u64| #[trigger] (p as i64) == -1i64 ==> p == 0xffff_ffff_ffff_ffffu64) by (bit_vector);
    assert(forall|p: u64| #[trigger] (p as i64) == 0i64 ==> p == 0) by (bit_vector);
}
