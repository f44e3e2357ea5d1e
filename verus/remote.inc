//% source src/rust/src/core/group_call.rs
// ---- what other devices and the server say ------------------------------------------------------
// (a public method hands its work to the actor, which owns the state: the closure is read in place,
//  as a block run on the state it is given)
//% item const REACTION_STRING_MAX_SIZE
//% item const RTP_DATA_PAYLOAD_TYPE
//% item const RTP_DATA_THROUGH_SFU_SSRC_OFFSET
//% item const RTP_DATA_TO_SFU_SSRC

// someone else than the one expected
#[verifier::external_body]
fn vx_not(expected: &Option<UserId>, user: &UserId) -> (r: bool)
    ensures
        r == (expected matches Some(e) && e@ != user@),
{
    unimplemented!()
}

pub uninterp spec fn text_bytes(s: Seq<char>) -> int;

#[verifier::external_body]
fn vx_text_len(s: &String) -> (r: usize)
    ensures
        r == text_bytes(s@),
        text_bytes(s@) == 0 <==> s@.len() == 0,
{
    s.len()
}

#[verifier::external_body]
fn vx_text_or_empty(s: Option<String>) -> (r: String)
    ensures
        match s {
            Some(t) => r == t,
            None => r@.len() == 0,
        },
{
    s.unwrap_or_default()
}

#[verifier::external_body]
fn vx_copy_ids(v: &Vec<DemuxId>) -> (r: Vec<DemuxId>)
    ensures
        r@ == v@,
{
    v.clone()
}

#[verifier::external_body]
fn vx_other_ids(a: &Vec<DemuxId>, b: &Vec<DemuxId>) -> (r: bool)
    ensures
        r == (a@ != b@),
{
    a != b
}

#[verifier::external_body]
fn vx_other_heights(a: &VMap<DemuxId, u16>, b: &VMap<DemuxId, u16>) -> (r: bool)
    ensures
        r == (a@ != b@),
{
    unimplemented!()
}

// the heights the server listed, by device: the last one listed for a device stays
pub open spec fn heights(ids: Seq<DemuxId>, h: Seq<u32>) -> Map<DemuxId, u16>
    decreases ids.len(),
{
    if ids.len() == 0 || h.len() == 0 {
        Map::empty()
    } else if ids.len() > h.len() {
        heights(ids.drop_last(), h)
    } else {
        heights(ids.drop_last(), h.take(ids.len() - 1)).insert(ids.last(), #[verifier::truncate] (h[ids.len() - 1] as u16))
    }
}

#[verifier::external_body]
fn vx_heights(ids: &Vec<DemuxId>, h: &Vec<u32>) -> (r: VMap<DemuxId, u16>)
    ensures
        r@ == heights(ids@, h@),
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_copied_or(o: Option<&u16>, d: u16) -> (r: u16)
    ensures
        r == match o {
            Some(x) => *x,
            None => d,
        },
{
    o.copied().unwrap_or(d)
}

pub open spec fn decoded(d: RemoteDeviceState) -> int {
    match d.client_decoded_height {
        Some(h) => h as int,
        None => 0,
    }
}

pub open spec fn pending_set(d: RemoteDeviceState) -> RemoteDeviceState {
    RemoteDeviceState { is_higher_resolution_pending: d.server_allocated_height > decoded(d), ..d }
}

impl RemoteDeviceState {
    //% fn RemoteDeviceState::recalculate_higher_resolution_pending
        ensures
            *final(self) == pending_set(*old(self)),
    //% end
}

impl HeartbeatState {
    //% fn From<protobuf::group_call::device_to_device::Heartbeat> for HeartbeatState::from
        ensures
            r == said(proto),
    //% end
}

pub open spec fn said(p: protobuf::group_call::device_to_device::Heartbeat) -> HeartbeatState {
    HeartbeatState {
        audio_muted: p.audio_muted,
        video_muted: p.video_muted,
        presenting: p.presenting,
        sharing_screen: p.sharing_screen,
        muted_by_demux_id: p.muted_by_demux_id,
    }
}

pub open spec fn stamp_of(t: Option<u32>) -> int {
    match t {
        Some(x) => x as int,
        None => 0,
    }
}

// the users who asked the device to mute, forgotten when it unmutes
pub open spec fn requesters_after(d: RemoteDeviceState, h: HeartbeatState) -> Set<DemuxId> {
    if h.audio_muted == Some(false) && d.heartbeat_state.audio_muted != Some(false) {
        Set::empty()
    } else {
        d.remote_mute_requesters@
    }
}

// what a newer state of a device changes about it
pub open spec fn beaten(d: RemoteDeviceState, ts: u32, h: HeartbeatState, r: RemoteDeviceState) -> bool {
    let shut = h.video_muted == Some(true);
    let base = RemoteDeviceState {
        heartbeat_rtp_timestamp: Some(ts),
        heartbeat_state: h,
        client_decoded_height: if shut { None } else { d.client_decoded_height },
        remote_mute_requesters: r.remote_mute_requesters,
        ..d
    };
    &&& r.remote_mute_requesters@ == requesters_after(d, h)
    &&& r == if shut { pending_set(base) } else { base }
}

// a mute on request shows exactly when the device turned from unmuted to muted, names someone new as
// the one who asked, and that one did ask
pub open spec fn mute_observed(d: RemoteDeviceState, h: HeartbeatState) -> Option<DemuxId> {
    match h.muted_by_demux_id {
        Some(who) => if d.heartbeat_state.muted_by_demux_id != Some(who) && h.audio_muted == Some(true)
            && d.heartbeat_state.audio_muted == Some(false) && requesters_after(d, h).contains(who) {
            Some(who)
        } else {
            None
        },
        None => None,
    }
}

pub open spec fn heartbeat_taken(before: State, id: DemuxId, ts: u32, h: HeartbeatState, after: State) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, id);
    &&& after == (State { observer: after.observer, remote_devices: after.remote_devices, ..before })
    &&& if k >= devs.len() || ts <= stamp_of(devs[k].heartbeat_rtp_timestamp) {
        after.remote_devices.0@ == devs && after.observer.log@ == before.observer.log@
    } else if h == devs[k].heartbeat_state {
        &&& after.remote_devices.0@ == devs.update(k, RemoteDeviceState { heartbeat_rtp_timestamp: Some(ts), ..devs[k] })
        &&& after.observer.log@ == before.observer.log@
    } else {
        let told = match mute_observed(devs[k], h) {
            Some(who) => before.observer.log@.push(Act::ObservedMute { source: who, target: id }),
            None => before.observer.log@,
        };
        &&& after.remote_devices.0@.len() == devs.len()
        &&& beaten(devs[k], ts, h, after.remote_devices.0@[k])
        &&& after.remote_devices.0@ == devs.update(k, after.remote_devices.0@[k])
        &&& after.observer.log@ == told.push(
            Act::DevicesChanged { why: RemoteDevicesChangedReason::HeartbeatStateChanged(id) },
        )
    }
}

// a device known by that id, changed
pub open spec fn one_changed(before: State, id: DemuxId, to: RemoteDeviceState, after: State) -> bool {
    let devs = before.remote_devices.0@;
    &&& after.remote_devices.0@ == devs.update(spot(devs, id), to)
    &&& after == (State { remote_devices: after.remote_devices, ..before })
}

pub open spec fn none_changed(before: State, after: State) -> bool {
    &&& after.remote_devices.0@ == before.remote_devices.0@
    &&& after == (State { remote_devices: after.remote_devices, ..before })
}

// a device says it leaves: noted once, and only when its own user says so; the server is asked now and in two seconds
pub open spec fn leaving_taken(before: State, by: Option<Seq<u8>>, id: DemuxId, after: State) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, id);
    if k < devs.len() && !devs[k].leaving_received && (by is None || by == Some(devs[k].user_id@)) {
        let left = RemoteDeviceState { leaving_received: true, ..devs[k] };
        let mid = State { remote_devices: after.remote_devices, ..before };
        let asked = State { actor: before.actor, ..after };
        &&& after.remote_devices.0@ == devs.update(k, left)
        &&& exists|now: Instant| #[trigger] a_time(now) && devices_asked(mid, 0, true, now, asked)
        &&& after.actor.asks@ == before.actor.asks@.push(2)
        &&& after.actor.tasks == before.actor.tasks
        &&& after.actor.ends == before.actor.ends
    } else {
        none_changed(before, after)
    }
}

// who asked this device to mute; who asked another one (as long as it is not muted anyway)
pub open spec fn mute_asked(before: State, by: DemuxId, of: DemuxId, after: State) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, of);
    match my_device(before) {
        Some(me) => if me == of {
            after == (State { mute_request: if before.mute_request is None && by != me { Some(by) } else { before.mute_request }, ..before })
        } else if k < devs.len() && devs[k].heartbeat_state.audio_muted != Some(true) {
            &&& after.remote_devices.0@.len() == devs.len()
            &&& after.remote_devices.0@[k].remote_mute_requesters@ == devs[k].remote_mute_requesters@.insert(by)
            &&& one_changed(before, of, RemoteDeviceState { remote_mute_requesters: after.remote_devices.0@[k].remote_mute_requesters, ..devs[k] }, after)
        } else {
            none_changed(before, after)
        },
        None => after == before,
    }
}

pub open spec fn hands_now(before: State, hands: Seq<DemuxId>, n: u32, outstanding: bool, tell: bool, after: State) -> bool {
    &&& after.raise_hand_state == (RaiseHandState { seqnum: n, outstanding, ..before.raise_hand_state })
    &&& after.raised_hands@ == hands
    &&& after.observer.log@ == if tell { before.observer.log@.push(Act::Hands(hands)) } else { before.observer.log@ }
    &&& after == (State {
        raise_hand_state: after.raise_hand_state,
        raised_hands: after.raised_hands,
        observer: after.observer,
        ..before
    })
}

// the list of raised hands: older than one's own last request (by number) it is stale; without a number it counts only
// as long as this device never asked
pub open spec fn hands_taken(before: State, hands: Seq<DemuxId>, n: u32, after: State) -> bool {
    let differ = before.raised_hands@ != hands;
    if n == 0 {
        if before.raise_hand_state.seqnum == 0 && differ {
            hands_now(before, hands, 0, before.raise_hand_state.outstanding, true, after)
        } else {
            after == before
        }
    } else if n < before.raise_hand_state.seqnum {
        after == before
    } else {
        hands_now(before, hands, n, false, before.raise_hand_state.outstanding || differ, after)
    }
}

// the device with the newest time of speaking, if any spoke (which one of several with the same time is not fixed)
pub uninterp spec fn last_speaker(d: Seq<RemoteDeviceState>) -> Option<DemuxId>;

pub open spec fn speaker_taken(before: State, ts: u32, id: DemuxId, after: State) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, id);
    if before.speaker_rtp_timestamp is Some && ts <= before.speaker_rtp_timestamp.unwrap() {
        after == before
    } else {
        &&& after == (State {
            speaker_rtp_timestamp: Some(ts),
            remote_devices: after.remote_devices,
            observer: after.observer,
            ..before
        })
        &&& if k < devs.len() && last_speaker(devs) != Some(id) {
            &&& after.remote_devices.0@.len() == devs.len()
            &&& after.remote_devices.0@[k].speaker_time is Some
            &&& after.remote_devices.0@ == devs.update(
                k,
                RemoteDeviceState { speaker_time: after.remote_devices.0@[k].speaker_time, ..devs[k] },
            )
            &&& after.observer.log@ == before.observer.log@.push(
                Act::DevicesChanged { why: RemoteDevicesChangedReason::SpeakerTimeChanged(id) },
            )
        } else {
            after.remote_devices.0@ == devs && after.observer.log@ == before.observer.log@
        }
    }
}

pub open spec fn forwarded(d: RemoteDeviceState, m: Map<DemuxId, u16>) -> RemoteDeviceState {
    let on = m.contains_key(d.demux_id);
    pending_set(
        RemoteDeviceState {
            forwarding_video: Some(on),
            server_allocated_height: if on { m[d.demux_id] } else { 0 },
            client_decoded_height: if on { d.client_decoded_height } else { None },
            ..d
        },
    )
}

pub open spec fn video_taken(before: State, m: Map<DemuxId, u16>, after: State) -> bool {
    if before.forwarding_videos@ == m {
        after == before
    } else {
        &&& after.forwarding_videos@ == m
        &&& after.remote_devices.0@ == before.remote_devices.0@.map_values(|d: RemoteDeviceState| forwarded(d, m))
        &&& after.observer.log@ == before.observer.log@.push(
            Act::DevicesChanged { why: RemoteDevicesChangedReason::ForwardedVideosChanged },
        )
        &&& after == (State {
            forwarding_videos: after.forwarding_videos,
            remote_devices: after.remote_devices,
            observer: after.observer,
            ..before
        })
    }
}

pub open spec fn reaction_taken(before: State, id: DemuxId, value: Option<String>, after: State) -> bool {
    match value {
        Some(v) if 0 < text_bytes(v@) <= 256 => {
            &&& after.reactions@ == before.reactions@.push(Reaction { demux_id: id, value: v })
            &&& after == (State { reactions: after.reactions, ..before })
        },
        _ => after == before,
    }
}

impl RemoteDevices {
    #[verifier::external_body]
    fn latest_speaker_demux_id(&self) -> (r: Option<DemuxId>)
        ensures
            r == last_speaker(self.0@),
    {
        unimplemented!()
    }
}

impl Client {
    //% fn Client::handle_heartbeat_received
        ensures
            heartbeat_taken(*old(state), demux_id, timestamp, said(heartbeat), *final(state)),
    //% head
        broadcast use nothing_updated;
        let ghost vx_devs = state.remote_devices.0@;
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::handle_leaving_received
        ensures
            leaving_taken(*old(state), match expected_user_id { Some(u) => Some(u@), None => None }, demux_id, *final(state)),
    //% head
        broadcast use nothing_updated;
    //% sub expected_user_id\.is_some_and\(\|expected\| expected != device\.user_id\) ==> vx_not(&expected_user_id, &device.user_id)
    //% sub \.send_delayed\(Duration::from_secs\((\w+)\), ==> .ask_delayed(\1, 
    //% closure 0
        $REPLACE ()
    //% end

    //% fn Client::handle_leaving_received#1 as asked_once_more
        ensures
            exists|now: Instant| #[trigger] a_time(now) && devices_asked(*old(state), 0, true, now, *final(state)),
    //% sig fn asked_once_more(state: &mut State)
    //% end

    //% fn Client::handle_reaction
        ensures
            reaction_taken(*old(state), demux_id, reaction.value, *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub reaction\.value\.unwrap_or_default\(\) ==> vx_text_or_empty(reaction.value)
    //% sub value\.is_empty\(\) ==> (vx_text_len(&value) == 0)
    //% sub? value\.len\(\) ==> vx_text_len(&value)
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::handle_remote_mute_request
        ensures
            match remote_mute_request.target_demux_id {
                Some(of) => mute_asked(*old(state), source_demux_id, of, *final(state)),
                None => *final(state) == *old(state),
            },
    //% head
        broadcast use nothing_updated;
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::handle_raised_hands
        ensures
            hands_taken(*old(state), raised_hands@, server_seqnum, *final(state)),
    //% sub? actor: &Actor<State> ==> state: &mut State
    //% sub actor\.send\(move \|state\| ==> (
    //% sub? state\.raised_hands\.clone\(\) ==> vx_copy_ids(&state.raised_hands)
    //% sub? state\.raised_hands != raised_hands ==> vx_other_ids(&state.raised_hands, &raised_hands)
    //% end

    //% fn Client::handle_speaker_received
        ensures
            speaker_taken(*old(state), timestamp, demux_id, *final(state)),
    //% head
        broadcast use nothing_updated;
        let ghost vx_devs = state.remote_devices.0@;
        proof { spot_bounds(vx_devs, demux_id); }
    //% sub? actor: &Actor<State> ==> state: &mut State
    //% sub actor\.send\(move \|state\| ==> (
    //% sub? SystemTime::now\(\) ==> vx_system_now()
    //% end

    //% fn Client::handle_forwarding_video_received
        ensures
            video_taken(*old(state), heights(demux_ids_with_video@, allocated_heights@), *final(state)),
    //% head
        let ghost vx_devs = state.remote_devices.0@;
    //% sub? actor: &Actor<State> ==> state: &mut State
    //% sub actor\.send\(move \|state\| ==> (
    //% sub? HashMap< ==> VMap<
    //% sub demux_ids_with_video\s*\.iter\(\)\s*\.zip\(allocated_heights\.iter\(\)\)\s*\.map\(.*?\)\s*\.collect\(\); ==> vx_heights(&demux_ids_with_video, &allocated_heights);
    //% sub? state\.forwarding_videos != forwarding_videos ==> vx_other_heights(&state.forwarding_videos, &forwarding_videos)
    //% sub? demux_ids_with_video\.sort_unstable\(\); ==> 
    //% sub? state\.remote_devices\.iter_mut\(\) ==> &mut state.remote_devices.0
    //% sub? server_allocated_height\.copied\(\)\.unwrap_or\(0\) ==> vx_copied_or(server_allocated_height, 0)
    //% loop 0
        invariant
            vx_i_0 <= state.remote_devices.0@.len(),
            state.remote_devices.0@.len() == vx_devs.len(),
            *state == (State { remote_devices: state.remote_devices, ..*old(state) }),
            forall|j: int|
                0 <= j < vx_devs.len() ==> #[trigger] state.remote_devices.0@[j] == if j < vx_i_0 {
                    forwarded(vx_devs[j], forwarding_videos@)
                } else {
                    vx_devs[j]
                },
        decreases state.remote_devices.0@.len() - vx_i_0,
    //% before state\.forwarding_videos = 
        proof {
            assert(state.remote_devices.0@ =~= vx_devs.map_values(|d: RemoteDeviceState| forwarded(d, forwarding_videos@)));
        }
    //% end
}

pub mod anyhow {
    pub(crate) use crate::vx_anyhow;
}

// ---- what this device says ----------------------------------------------------------------------
// data for the other devices is sealed like media (encrypt_data itself: see frame.inc)
pub uninterp spec fn sealed(before: Context, plain: Seq<u8>, out: Seq<u8>) -> bool;

pub open spec fn data_told(before: Seq<Told>, ssrc: u32, n: u32, data: Seq<u8>) -> Seq<Told> {
    before.push(
        Told::Rtp { header: rtp::Header { pt: 101, seqnum: #[verifier::truncate] (n as u16), timestamp: n, ssrc }, data },
    )
}

pub open spec fn next_number(n: u32) -> u32 {
    if n == u32::MAX { 0 } else { (n + 1) as u32 }
}

pub open spec fn plus_0xd(d: u32) -> u32 {
    if d > u32::MAX - 0xD { u32::MAX } else { (d + 0xD) as u32 }
}

// data for everyone goes out once joined, sealed, under the next number of the device's data stream; a failure sends nothing
pub open spec fn broadcast_out(before: State, data: Seq<u8>, ok: bool, after: State) -> bool {
    match before.join_state {
        JoinState::Joined(me) => {
            &&& after == (State {
                frame_crypto_context: after.frame_crypto_context,
                peer_connection: after.peer_connection,
                rtp_data_through_sfu_next_seqnum: after.rtp_data_through_sfu_next_seqnum,
                ..before
            })
            &&& if ok {
                let n = before.rtp_data_through_sfu_next_seqnum;
                &&& after.rtp_data_through_sfu_next_seqnum == next_number(n)
                &&& exists|out: Seq<u8>| #[trigger]
                    sealed(before.frame_crypto_context, data, out) && after.peer_connection.told@ == data_told(
                        before.peer_connection.told@,
                        plus_0xd(me),
                        n,
                        out,
                    )
            } else {
                &&& after.rtp_data_through_sfu_next_seqnum == before.rtp_data_through_sfu_next_seqnum
                &&& after.peer_connection.told@ == before.peer_connection.told@
            }
        },
        _ => ok && after == before,
    }
}

// data for the server
pub open spec fn to_server(before: State, data: Seq<u8>, ok: bool, after: State) -> bool {
    &&& after == (State {
        peer_connection: after.peer_connection,
        rtp_data_to_sfu_next_seqnum: after.rtp_data_to_sfu_next_seqnum,
        ..before
    })
    &&& ok ==> my_device(before) is Some
    &&& if ok {
        let n = before.rtp_data_to_sfu_next_seqnum;
        &&& after.rtp_data_to_sfu_next_seqnum == next_number(n)
        &&& after.peer_connection.told@ == data_told(before.peer_connection.told@, 1, n, data)
    } else {
        &&& after.rtp_data_to_sfu_next_seqnum == before.rtp_data_to_sfu_next_seqnum
        &&& after.peer_connection.told@ == before.peer_connection.told@
    }
}

pub open spec fn tried_broadcast(before: State, data: Seq<u8>, after: State) -> bool {
    broadcast_out(before, data, true, after) || broadcast_out(before, data, false, after)
}

pub open spec fn tried_server(before: State, data: Seq<u8>, after: State) -> bool {
    to_server(before, data, true, after) || to_server(before, data, false, after)
}

pub open spec fn no_d2d() -> protobuf::group_call::DeviceToDevice {
    protobuf::group_call::DeviceToDevice {
        group_id: None,
        media_key: None,
        leaving: None,
        heartbeat: None,
        reaction: None,
        remote_mute_request: None,
    }
}

pub open spec fn no_d2s() -> protobuf::group_call::DeviceToSfu {
    protobuf::group_call::DeviceToSfu { leave: None, raise_hand: None, admin_action: None }
}

pub open spec fn heartbeat_of(h: HeartbeatState) -> protobuf::group_call::DeviceToDevice {
    protobuf::group_call::DeviceToDevice {
        heartbeat: Some(
            protobuf::group_call::device_to_device::Heartbeat {
                audio_muted: h.audio_muted,
                video_muted: h.video_muted,
                presenting: h.presenting,
                sharing_screen: h.sharing_screen,
                muted_by_demux_id: h.muted_by_demux_id,
            },
        ),
        ..no_d2d()
    }
}

// the state shown to others, changed and sent out
pub open spec fn shown(before: State, h: HeartbeatState, after: State) -> bool {
    let b = State { outgoing_heartbeat_state: h, ..before };
    tried_broadcast(b, wire(heartbeat_of(h)), after)
}

// muting keeps who asked for it until the microphone is on again
pub open spec fn muted_state(h: HeartbeatState, muted: bool, by: Option<DemuxId>) -> HeartbeatState {
    HeartbeatState {
        audio_muted: Some(muted),
        muted_by_demux_id: if !muted {
            None
        } else if h.audio_muted == Some(true) {
            h.muted_by_demux_id
        } else {
            by
        },
        ..h
    }
}

// asking another device to mute: remembered as asked by this one when that device is known to be unmuted, and sent to all
pub open spec fn mute_wanted(before: State, target: DemuxId, after: State) -> bool {
    let devs = before.remote_devices.0@;
    let k = spot(devs, target);
    let m = protobuf::group_call::DeviceToDevice {
        remote_mute_request: Some(protobuf::group_call::RemoteMuteRequest { target_demux_id: Some(target) }),
        ..no_d2d()
    };
    if my_device(before) == Some(target) {
        after == before
    } else {
        let mid = State { remote_devices: after.remote_devices, ..before };
        &&& tried_broadcast(mid, wire(m), after)
        &&& match my_device(before) {
            Some(me) => if k < devs.len() && devs[k].heartbeat_state.audio_muted == Some(false) {
                &&& mid.remote_devices.0@.len() == devs.len()
                &&& mid.remote_devices.0@[k].remote_mute_requesters@ == devs[k].remote_mute_requesters@.insert(me)
                &&& one_changed(before, target, RemoteDeviceState { remote_mute_requesters: mid.remote_devices.0@[k].remote_mute_requesters, ..devs[k] }, mid)
            } else {
                none_changed(before, mid)
            },
            None => mid == before,
        }
    }
}

pub open spec fn hand_of(s: State) -> protobuf::group_call::DeviceToSfu {
    protobuf::group_call::DeviceToSfu {
        raise_hand: Some(
            protobuf::group_call::device_to_sfu::RaiseHand {
                raise: Some(s.raise_hand_state.raise),
                seqnum: Some(s.raise_hand_state.seqnum),
            },
        ),
        ..no_d2s()
    }
}

impl Client {
    #[verifier::external_body]
    fn encrypt_data(state: &mut State, data: &[u8]) -> (r: Result<Vec<u8>, VxError>)
        ensures
            *final(state) == (State { frame_crypto_context: final(state).frame_crypto_context, ..*old(state) }),
            r matches Ok(v) ==> sealed(old(state).frame_crypto_context, data@, v@),
    {
        unimplemented!()
    }

    //% fn Client::unreliable_send_data_inner
        ensures
            r matches Ok(n) ==> {
                &&& n == next_number(seqnum)
                &&& join_state is Pending || join_state is Joined
                &&& final(peer_connection).told@ == data_told(old(peer_connection).told@, ssrc, seqnum, message@)
            },
            r is Err ==> final(peer_connection).told@ == old(peer_connection).told@,
    //% sub? peer_connection: &PeerConnection ==> peer_connection: &mut PeerConnection
    //% sub? Result<u32> ==> Result<u32, VxError>
    //% sub? seqnum as u16 ==> #[verifier::truncate] (seqnum as u16)
    //% end

    //% fn Client::unreliable_send_data_to_sfu
        ensures
            to_server(*old(state), message@, r is Ok, *final(state)),
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub? &state\.peer_connection ==> &mut state.peer_connection
    //% end

    //% fn Client::broadcast_data_through_sfu
        ensures
            broadcast_out(*old(state), message@, r is Ok, *final(state)),
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub? &state\.peer_connection ==> &mut state.peer_connection
    //% end

    //% fn Client::send_heartbeat
        ensures
            broadcast_out(*old(state), wire(heartbeat_of(old(state).outgoing_heartbeat_state)), r is Ok, *final(state)),
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::send_reaction
        ensures
            broadcast_out(
                *old(state),
                wire(protobuf::group_call::DeviceToDevice {
                    reaction: Some(protobuf::group_call::device_to_device::Reaction { value: Some(value) }),
                    ..no_d2d()
                }),
                r is Ok,
                *final(state),
            ),
    //% sub? Result<\(\)> ==> Result<(), VxError>
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::send_raise_hand
        ensures
            tried_server(*old(state), wire_sfu(hand_of(*old(state))), *final(state)),
    //% sub use protobuf::group_call::device_to_sfu::RaiseHand; ==> 
    //% sub DeviceToSfu \{ ==> protobuf::group_call::DeviceToSfu {
    //% sub Some\(RaiseHand ==> Some(protobuf::group_call::device_to_sfu::RaiseHand 
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::set_outgoing_audio_muted_inner
        ensures
            shown(*old(state), muted_state(old(state).outgoing_heartbeat_state, muted, muted_by_demux_id), *final(state)),
    //% end

    //% fn Client::set_outgoing_audio_muted
        ensures
            shown(*old(state), muted_state(old(state).outgoing_heartbeat_state, muted, None), *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::set_outgoing_audio_muted_remotely
        ensures
            shown(*old(state), muted_state(old(state).outgoing_heartbeat_state, true, Some(source)), *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::set_outgoing_video_muted
        ensures
            shown(*old(state), HeartbeatState { video_muted: Some(muted), ..old(state).outgoing_heartbeat_state }, *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::set_presenting
        ensures
            shown(*old(state), HeartbeatState { presenting: Some(presenting), ..old(state).outgoing_heartbeat_state }, *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::set_sharing_screen
        ensures
            exists|mid: State, rates: SendRates| #[trigger]
                rates_set(mid, *final(state), rates) && rates_for(old(state).remote_devices.0@.len() as int, sharing_screen, rates)
                    && shown(
                    *old(state),
                    HeartbeatState { sharing_screen: Some(sharing_screen), ..old(state).outgoing_heartbeat_state },
                    mid,
                ),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub? state\.remote_devices\.len\(\) ==> state.remote_devices.0.len()
    //% end

    //% fn Client::override_send_rates
        ensures
            rates_set(
                State { send_rates_override: Some(send_rates_override), ..*old(state) },
                *final(state),
                send_rates_override,
            ),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::send_remote_mute_request
        ensures
            mute_wanted(*old(state), target, *final(state)),
    //% head
        broadcast use nothing_updated;
        proof { spot_bounds(state.remote_devices.0@, target); }
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub use crate::protobuf::group_call::\{DeviceToDevice, RemoteMuteRequest\}; ==> 
    //% sub DeviceToDevice \{ ==> protobuf::group_call::DeviceToDevice {
    //% sub Some\(RemoteMuteRequest ==> Some(protobuf::group_call::RemoteMuteRequest 
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::react
        ensures
            if 0 < text_bytes(value@) <= 256 {
                tried_broadcast(
                    *old(state),
                    wire(protobuf::group_call::DeviceToDevice {
                        reaction: Some(protobuf::group_call::device_to_device::Reaction { value: Some(value) }),
                        ..no_d2d()
                    }),
                    *final(state),
                )
            } else {
                *final(state) == *old(state)
            },
    //% sub? &self, ==> state: &mut State,
    //% sub value\.is_empty\(\) ==> (vx_text_len(&value) == 0)
    //% sub? value\.len\(\) ==> vx_text_len(&value)
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::raise_hand
        requires
            old(state).raise_hand_state.seqnum < u32::MAX,
        ensures
            ({
                let asked = State {
                    raise_hand_state: RaiseHandState {
                        seqnum: (old(state).raise_hand_state.seqnum + 1) as u32,
                        raise,
                        outstanding: true,
                    },
                    ..*old(state)
                };
                tried_server(asked, wire_sfu(hand_of(asked)), *final(state))
            }),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::resend_media_keys
        ensures
            key_sent_if_in(
                *old(state),
                *final(state),
                old(state).frame_crypto_context.sender_state.ratchet_counter as u32,
                old(state).frame_crypto_context.sender_state.current_secret@,
                users_of(old(state).remote_devices.0@),
            ),
            *final(state) == (State { observer: final(state).observer, ..*old(state) }),
    //% head
        broadcast use users_collected;
    //% sub? &self ==> state: &mut State
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub? HashSet ==> VSet
    //% sub state\s*\.remote_devices\s*\.iter\(\) ==> state.remote_devices.0.vx_iter()
    //% sub state\s*\.frame_crypto_context\s*\.lock\(\)\s*\.expect\([^()]*\) ==> &mut state.frame_crypto_context
    //% closure 0
        |rd: &RemoteDeviceState| -> (v: UserId)
            ensures
                v@ == rd.user_id@,
    //% end
}

// ---- joining, leaving, ringing ------------------------------------------------------------------
//% item struct Joined
//% source src/rust/src/core/group_call.rs

// whether any other call keeps this device busy (the lock is never left broken)
#[verifier::external_body]
fn vx_lock(b: &mut bool) -> (r: Result<&mut bool, VxError>)
    ensures
        r matches Ok(x) && (*x == *old(b) && *final(b) == *final(x)),
{
    Ok(b)
}

#[verifier::external_body]
fn vx_random_key() -> EphemeralSecret {
    unimplemented!()
}

#[verifier::external_body]
fn vx_some_time() -> Instant {
    unimplemented!()
}

pub struct VxErrors {
    pub e: u8,
}

impl VxErrors {
    #[verifier::external_body]
    fn is_empty(&self) -> bool {
        unimplemented!()
    }
}

// reading the decryption errors (see crypto.inc) leaves the keys as they are
#[verifier::external_body]
fn vx_error_stats(c: &mut Context) -> (r: VxErrors)
    ensures
        final(c).sender_state == old(c).sender_state,
        final(c).next_frame_counter == old(c).next_frame_counter,
        final(c).remote_states_by_id == old(c).remote_states_by_id,
{
    unimplemented!()
}

pub open spec fn same_but_stats(before: State, after: State) -> bool {
    &&& after == (State {
        frame_crypto_context: after.frame_crypto_context,
        peer_connection: after.peer_connection,
        rtp_data_to_sfu_next_seqnum: after.rtp_data_to_sfu_next_seqnum,
        ..before
    })
    &&& after.frame_crypto_context.sender_state == before.frame_crypto_context.sender_state
    &&& after.frame_crypto_context.remote_states_by_id == before.frame_crypto_context.remote_states_by_id
}

pub open spec fn ring_wish(m: protobuf::signaling::CallMessage, group: Seq<u8>, id: RingId, kind: int) -> bool {
    &&& m.ring_response is None
    &&& m.group_call_message is None
    &&& m.ring_intention matches Some(i) && (i.r#type matches Some(t) && t == kind) && i.ring_id == Some(id.0) && (
    i.group_id matches Some(g) && g@ == group)
}

pub open spec fn ring_answer(m: protobuf::signaling::CallMessage, group: Seq<u8>, id: RingId) -> bool {
    &&& m.ring_intention is None
    &&& m.group_call_message is None
    &&& m.ring_response matches Some(i) && i.r#type == Some(1i32) && i.ring_id == Some(id.0) && (i.group_id matches Some(g)
        && g@ == group)
}

// everyone in the group is told that this user rings (0), or rings no more (1)
pub open spec fn ring_told(before: State, id: RingId, kind: int, after: State) -> bool {
    let n = before.observer.log@.len() as int;
    &&& after == (State { observer: after.observer, ..before })
    &&& after.observer.log@.len() == n + 1
    &&& after.observer.log@.take(n) == before.observer.log@
    &&& after.observer.log@[n] matches Act::SendGroup { group, to, m, u } && group == before.group_id@ && to == Set::<
        Seq<u8>,
    >::empty() && ring_wish(m, before.group_id@, id, kind) && u is HandleImmediately
}

pub open spec fn ring_called_off(before: State, after: State) -> bool {
    match before.outgoing_ring_state {
        OutgoingRingState::HasSentRing { ring_id } => ring_told(before, ring_id, 1, after),
        _ => after == before,
    }
}

// ringing is for who may (the call's creator), once, and as long as nobody else is there
pub open spec fn rung(before: State, recipient: Option<UserId>, after: State) -> bool {
    match before.outgoing_ring_state {
        OutgoingRingState::PermittedToRing { ring_id } => {
            let mid = State { outgoing_ring_state: before.outgoing_ring_state, ..after };
            &&& ring_told(before, ring_id, 0, mid)
            &&& after.outgoing_ring_state == if before.remote_devices.0@.len() == 0 {
                OutgoingRingState::HasSentRing { ring_id }
            } else {
                OutgoingRingState::NotPermittedToRing
            }
        },
        OutgoingRingState::Unknown => after == (State { outgoing_ring_state: OutgoingRingState::WantsToRing { recipient }, ..before }),
        _ => after == before,
    }
}

// the user's other devices learn that the ring was answered here
pub open spec fn ring_answered(before: State, ring: Option<RingId>, after: State) -> bool {
    let n = before.observer.log@.len() as int;
    match (ring, before.self_uuid) {
        (Some(id), Some(me)) => {
            &&& after == (State { observer: after.observer, ..before })
            &&& after.observer.log@.len() == n + 1
            &&& after.observer.log@.take(n) == before.observer.log@
            &&& after.observer.log@[n] matches Act::Send { to, m, u } && to == me@ && ring_answer(m, before.group_id@, id)
                && u is HandleImmediately
        },
        _ => after == before,
    }
}

pub open spec fn join_state_told(before: State, to: JoinState, after: State) -> bool {
    &&& after == (State { join_state: to, observer: after.observer, ..before })
    &&& after.observer.log@ == before.observer.log@.push(Act::JoinState(to))
}

pub open spec fn connection_told(before: State, to: ConnectionState, after: State) -> bool {
    &&& after == (State { connection_state: to, observer: after.observer, call_summary: after.call_summary, ..before })
    &&& after.observer.log@ == before.observer.log@.push(Act::Connection(to))
}

// ---- leaving
pub open spec fn says_leaving(m: protobuf::signaling::CallMessage, group: Seq<u8>, me: DemuxId) -> bool {
    &&& m.ring_intention is None
    &&& m.ring_response is None
    &&& m.group_call_message matches Some(d) && (d.media_key is None && d.heartbeat is None && d.reaction is None
        && d.remote_mute_request is None && (d.group_id matches Some(g) && g@ == group) && (d.leaving matches Some(l)
        && l.demux_id == Some(me)))
}

pub open spec fn leaving_act(a: Act, group: Seq<u8>, me: DemuxId) -> bool {
    match a {
        Act::Send { m, u, .. } => says_leaving(m, group, me) && u is Droppable,
        Act::SendGroup { group: g, m, u, to } => says_leaving(m, group, me) && u is Droppable && g == group && to != Set::<
            Seq<u8>,
        >::empty(),
        _ => false,
    }
}

// acts tell the users of `to`, each once, and nobody else
pub open spec fn leaving_sent(acts: Seq<Act>, group: Seq<u8>, me: DemuxId, to: Set<Seq<u8>>) -> bool
    decreases acts.len(),
{
    if acts.len() == 0 {
        to == Set::<Seq<u8>>::empty()
    } else {
        &&& leaving_act(acts.last(), group, me)
        &&& addressed(acts.last()).subset_of(to)
        &&& leaving_sent(acts.drop_last(), group, me, to.difference(addressed(acts.last())))
    }
}

broadcast proof fn one_more_told(log: Seq<Act>, a: Act, group: Seq<u8>, me: DemuxId, done: Set<Seq<u8>>, n: int)
    requires
        0 <= n <= log.len(),
        leaving_sent(log.skip(n), group, me, done),
        leaving_act(a, group, me),
        addressed(a).disjoint(done),
    ensures
        #![trigger log.push(a), leaving_sent(log.skip(n), group, me, done)]
        log.push(a).take(n) == log.take(n),
        leaving_sent(log.push(a).skip(n), group, me, done.union(addressed(a))),
{
    assert(log.push(a).take(n) =~= log.take(n));
    assert(log.push(a).skip(n) =~= log.skip(n).push(a));
    assert(log.skip(n).push(a).drop_last() =~= log.skip(n));
    assert(done.union(addressed(a)).difference(addressed(a)) =~= done);
}

// all members known to be in the call are told that this device leaves, through the server and by message
#[verifier::opaque]
pub open spec fn goodbye(before: State, me: DemuxId, after: State) -> bool {
    let n = before.observer.log@.len() as int;
    let m = protobuf::group_call::DeviceToDevice {
        leaving: Some(protobuf::group_call::device_to_device::Leaving { demux_id: None }),
        ..no_d2d()
    };
    &&& exists|mid: State| #[trigger] tried_broadcast(before, wire(m), mid) && after == (State { observer: after.observer, ..mid })
    &&& after.observer.log@.len() >= n
    &&& after.observer.log@.take(n) == before.observer.log@
    &&& leaving_sent(after.observer.log@.skip(n), before.group_id@, me, before.joined_members@)
}

// the server is told twice, as either packet may be lost
#[verifier::opaque]
pub open spec fn left_server(before: State, after: State) -> bool {
    let data = wire_sfu(
        protobuf::group_call::DeviceToSfu { leave: Some(protobuf::group_call::device_to_sfu::LeaveMessage {  }), ..no_d2s() },
    );
    exists|mid: State, a: bool, b: bool| #[trigger] to_server(before, data, a, mid) && #[trigger] to_server(mid, data, b, after)
}

pub open spec fn media_off(before: State, after: State) -> bool {
    &&& after == (State { peer_connection: after.peer_connection, ..before })
    &&& after.peer_connection.told@ == before.peer_connection.told@.push(Told::OutgoingMedia(false)).push(
        Told::IncomingMedia(false),
    )
}

pub open spec fn out_of_call(before: State, after: State) -> bool {
    &&& after == (State {
        busy: false,
        join_state: JoinState::NotJoined(None),
        observer: after.observer,
        next_heartbeat_time: None,
        next_stats_time: None,
        next_audio_levels_time: None,
        next_speaking_audio_levels_time: None,
        next_membership_proof_request_time: None,
        ..before
    })
    &&& after.observer.log@ == before.observer.log@.push(Act::JoinState(JoinState::NotJoined(None)))
}

pub open spec fn said_goodbye(before: State, me: DemuxId, after: State) -> bool {
    exists|a: State| #[trigger] goodbye(before, me, a) && left_server(a, after)
}

#[verifier::opaque]
pub open spec fn left(before: State, after: State) -> bool {
    exists|a: State, b: State| #[trigger]
        ring_called_off(before, a) && #[trigger] same_but_stats(a, b) && match before.join_state {
            JoinState::NotJoined(_) => after == b,
            JoinState::Joining => exists|c: State| #[trigger] media_off(b, c) && out_of_call(c, after),
            JoinState::Pending(me) => exists|c: State, d: State| #[trigger]
                media_off(b, c) && #[trigger] said_goodbye(c, me, d) && out_of_call(d, after),
            JoinState::Joined(me) => exists|c: State, d: State| #[trigger]
                media_off(b, c) && #[trigger] said_goodbye(c, me, d) && out_of_call(d, after),
        }
}

// ending: out of the call first, then, if there was a connection, it is closed a little later
pub open spec fn end_planned(before: State, reason: CallEndReason, after: State) -> bool {
    if before.connection_state is NotConnected {
        after == before
    } else {
        &&& after == (State { actor: after.actor, ..before })
        &&& after.actor.ends@ == before.actor.ends@.push(reason)
        &&& after.actor.tasks == before.actor.tasks
        &&& after.actor.asks == before.actor.asks
    }
}

#[verifier::opaque]
pub open spec fn ended(before: State, reason: CallEndReason, after: State) -> bool {
    if before.join_state is NotJoined {
        end_planned(before, reason, after)
    } else {
        exists|m: State| #[trigger] left(before, m) && end_planned(m, reason, after)
    }
}

// joining: only from outside and when no other call is on; the ring, if any, is answered
#[verifier::opaque]
pub open spec fn joining(before: State, ring: Option<RingId>, after: State) -> bool {
    exists|a: State, b: State| #[trigger]
        join_state_told(State { busy: true, ..before }, JoinState::Joining, a) && #[trigger] ring_answered(a, ring, b) && {
            let group = b.kind is SignalGroup;
            &&& after == (State {
                observer: after.observer,
                dhe_state: after.dhe_state,
                sfu_client: after.sfu_client,
                next_membership_proof_request_time: after.next_membership_proof_request_time,
                ..b
            })
            &&& after.observer.log@ == if group {
                b.observer.log@.push(Act::AskForProof)
            } else {
                b.observer.log@
            }
            &&& group ==> after.next_membership_proof_request_time is Some
            &&& !group ==> after.next_membership_proof_request_time == b.next_membership_proof_request_time
            &&& after.dhe_state is WaitingForServerPublicKey
            &&& after.sfu_client.log@ == b.sfu_client.log@.push(Asked::Join)
        }
}

// connecting: once
#[verifier::opaque]
pub open spec fn connecting(before: State, after: State) -> bool {
    exists|a: State, b: State| #[trigger]
        connection_told(before, ConnectionState::Connecting, a) && #[trigger] ticked(b, after) && {
            let group = a.kind is SignalGroup;
            &&& b == (State {
                observer: b.observer,
                next_heartbeat_time: b.next_heartbeat_time,
                next_audio_levels_time: b.next_audio_levels_time,
                next_speaking_audio_levels_time: b.next_speaking_audio_levels_time,
                next_raise_hand_time: b.next_raise_hand_time,
                next_membership_proof_request_time: b.next_membership_proof_request_time,
                ..a
            })
            &&& b.observer.log@ == if group {
                a.observer.log@.push(Act::AskForProof).push(Act::AskForMembers)
            } else {
                a.observer.log@
            }
            &&& b.next_heartbeat_time is Some
            &&& b.next_audio_levels_time is Some
            &&& b.next_speaking_audio_levels_time is Some
            &&& b.next_raise_hand_time is Some
            &&& group ==> b.next_membership_proof_request_time is Some
            &&& !group ==> b.next_membership_proof_request_time == a.next_membership_proof_request_time
        }
}

// what is due is done (the contracts of what tick calls are the others here)
pub uninterp spec fn ticked(before: State, after: State) -> bool;

// a request reached the reliable stream to the server (its contracts: mrp_stream.inc)
pub uninterp spec fn requested(before: State, m: protobuf::group_call::DeviceToSfu, after: State) -> bool;

pub open spec fn no_admin(a: protobuf::group_call::device_to_sfu::AdminAction) -> protobuf::group_call::DeviceToSfu {
    protobuf::group_call::DeviceToSfu { admin_action: Some(a), ..no_d2s() }
}

// where the first listed device of a user stands; the length when there is none
pub open spec fn listed_spot(s: Seq<PeekDeviceInfo>, user: Seq<u8>) -> int
    decreases s.len(),
{
    if s.len() == 0 {
        0
    } else if s[0].user_id matches Some(u) && u@ == user {
        0
    } else {
        1 + listed_spot(s.subrange(1, s.len() as int), user)
    }
}

proof fn listed_bounds(s: Seq<PeekDeviceInfo>, user: Seq<u8>)
    ensures
        0 <= listed_spot(s, user) <= s.len(),
        listed_spot(s, user) < s.len() ==> (s[listed_spot(s, user)].user_id matches Some(u) && u@ == user),
        forall|j: int| 0 <= j < listed_spot(s, user) ==> !((#[trigger] s[j]).user_id matches Some(u) && u@ == user),
    decreases s.len(),
{
    if s.len() > 0 && !(s[0].user_id matches Some(u) && u@ == user) {
        let t = s.subrange(1, s.len() as int);
        listed_bounds(t, user);
        assert forall|j: int| 0 <= j < listed_spot(s, user) implies !((#[trigger] s[j]).user_id matches Some(u) && u@ == user) by {
            if j > 0 {
                assert(s[j] == t[j - 1]);
            }
        }
    }
}

broadcast proof fn listed_found(s: Seq<PeekDeviceInfo>, user: Seq<u8>, k: int)
    requires
        0 <= k < s.len(),
        s[k].user_id matches Some(u) && u@ == user,
        forall|j: int| 0 <= j < k ==> !((#[trigger] s[j]).user_id matches Some(u) && u@ == user),
    ensures
        #![trigger listed_spot(s, user), s[k]]
        listed_spot(s, user) == k,
{
    listed_bounds(s, user);
    let q = listed_spot(s, user);
    if q < k {
        assert(s[q].user_id matches Some(u) && u@ == user);
    }
}

// the user's first device in the waiting room is let in, or turned away
pub open spec fn answered_user(before: State, user: Seq<u8>, yes: bool, after: State) -> bool {
    match before.last_peek_info {
        Some(p) => {
            let k = listed_spot(p.pending_devices@, user);
            if k < p.pending_devices@.len() {
                let a = protobuf::group_call::device_to_sfu::GenericAdminAction {
                    target_demux_id: Some(p.pending_devices@[k].demux_id),
                };
                requested(
                    before,
                    no_admin(
                        if yes {
                            protobuf::group_call::device_to_sfu::AdminAction::Approve(a)
                        } else {
                            protobuf::group_call::device_to_sfu::AdminAction::Deny(a)
                        },
                    ),
                    after,
                )
            } else {
                after == before
            }
        },
        None => after == before,
    }
}

#[verifier::external_body]
fn vx_is_user(a: &Option<UserId>, b: &UserId) -> (r: bool)
    ensures
        r == (a matches Some(u) && u@ == b@),
{
    a.as_ref() == Some(b)
}

#[verifier::external_body]
fn vx_other_members(a: &VSet<UserId>, b: &VSet<UserId>) -> (r: bool)
    ensures
        r == (a@ != b@),
{
    unimplemented!()
}

pub open spec fn members_of(s: Seq<GroupMember>) -> Set<Seq<u8>> {
    s.map_values(|m: GroupMember| m.user_id@).to_set()
}

broadcast proof fn members_collected(s: Seq<GroupMember>, u: Seq<UserId>)
    requires
        s.len() == u.len(),
        forall|i: int| #![trigger u[i]] 0 <= i < s.len() ==> u[i]@ == s[i].user_id@,
    ensures
        #![trigger members_of(s), view_set(u)]
        members_of(s) == view_set(u),
{
    assert(s.map_values(|m: GroupMember| m.user_id@) =~= views(u));
}

// a changed list of members: names can be read by it, and the devices are asked for again
pub open spec fn members_changed(before: State, members: Set<Seq<u8>>, after: State) -> bool {
    let mid = State { known_members: after.known_members, sfu_client: SfuClient { log: Ghost(before.sfu_client.log@.push(Asked::Members)) }, ..before };
    &&& after.known_members@ == members
    &&& exists|now: Instant| #[trigger] a_time(now) && devices_asked(mid, 0, true, now, after)
}

// a new proof of membership: if the device list waited for it, it is asked for now
pub open spec fn proof_set(before: State, after: State) -> bool {
    let mid = State { sfu_client: SfuClient { log: Ghost(before.sfu_client.log@.push(Asked::Proof)) }, ..before };
    if before.remote_devices_request_state is WaitingForMembershipProof {
        exists|now: Instant| #[trigger] a_time(now) && devices_asked(
            State { remote_devices_request_state: RemoteDevicesRequestState::NeverRequested, ..mid },
            0,
            true,
            now,
            after,
        )
    } else {
        after == mid
    }
}

pub open spec fn ring_noted(before: State, id: RingId) -> JoinState {
    match before.join_state {
        JoinState::NotJoined(None) => JoinState::NotJoined(Some(id)),
        j => j,
    }
}

#[verifier::external_body]
fn vx_cause(e: &VxError) -> (r: Option<&RingRtcError>)
    ensures
        r == cause_of(*e),
{
    unimplemented!()
}

pub uninterp spec fn cause_of(e: VxError) -> Option<&'static RingRtcError>;

pub open spec fn why_not_joined(e: VxError) -> CallEndReason {
    if cause_of(e) matches Some(c) && c is GroupCallFull {
        CallEndReason::HasMaxDevices
    } else {
        CallEndReason::SfuClientFailedToJoin
    }
}

impl Client {
    // WebRTC's audio settings; nothing the state here shows
    #[verifier::external_body]
    fn on_client_joined(state: &mut State)
        ensures
            *final(state) == (State { peer_connection: final(state).peer_connection, ..*old(state) }),
    {
    }

    #[verifier::external_body]
    fn tick(state: &mut State)
        ensures
            ticked(*old(state), *final(state)),
    {
    }

    #[verifier::external_body]
    fn send_decryption_stats_inner(state: &mut State, errors: VxErrors)
        ensures
            same_but_stats(*old(state), *final(state)),
    {
    }

    #[verifier::external_body]
    fn reliable_send_device_to_sfu(state: &mut State, m: protobuf::group_call::DeviceToSfu) -> (r: Result<(), VxError>)
        ensures
            requested(*old(state), m, *final(state)),
    {
        unimplemented!()
    }

    //% fn Client::provide_ring_id_if_absent
        ensures
            *final(state) == (State { join_state: ring_noted(*old(state), ring_id), ..*old(state) }),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::set_connection_state_and_notify_observer
        ensures
            connection_told(*old(state), connection_state, *final(state)),
    //% end

    //% fn Client::set_join_state_and_notify_observer
        ensures
            join_state_told(*old(state), join_state, *final(state)),
    //% end

    //% fn Client::take_busy
        ensures
            r == !old(state).busy,
            *final(state) == (State { busy: true, ..*old(state) }),
    //% sub? state\.busy\.lock\(\) ==> vx_lock(&mut state.busy)
    //% sub? Ok\(mut busy\) ==> Ok(busy)
    //% end

    //% fn Client::release_busy
        ensures
            *final(state) == (State { busy: false, ..*old(state) }),
    //% sub? state\.busy\.lock\(\) ==> vx_lock(&mut state.busy)
    //% sub? Ok\(mut busy\) ==> Ok(busy)
    //% end

    //% fn Client::accept_ring_if_needed
        ensures
            ring_answered(*old(state), ring_id, *final(state)),
    //% sub state\.self_uuid\.lock\(\)\.expect\("[^"]*"\)\.clone\(\) ==> vx_user_copy(&state.self_uuid)
    //% sub? ring_id\.into\(\) ==> ring_id.0
    //% sub? protobuf::signaling::call_message::ring_response::Type::Accepted\.into\(\) ==> 1i32
    //% sub? protobuf::signaling::call_message::ring_response::Type::Ringing\.into\(\) ==> 0i32
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% before state.observer.send_signaling_message
        proof { assert(state.observer.log@.push(Act::Send { to: self_uuid@, m: accept_message, u: SignalingMessageUrgency::HandleImmediately }).take(state.observer.log@.len() as int) =~= state.observer.log@); }
    //% end

    //% fn Client::cancel_full_group_ring_if_needed
        ensures
            ring_called_off(*old(state), *final(state)),
    //% sub? ring_id\.into\(\) ==> ring_id.0
    //% sub? protobuf::signaling::call_message::ring_intention::Type::Cancelled\.into\(\) ==> 1i32
    //% sub? protobuf::signaling::call_message::ring_intention::Type::Ring\.into\(\) ==> 0i32
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% head
        broadcast use taken_back;
    //% end

    //% fn Client::ring_inner
        requires
            old(state).outgoing_ring_state is PermittedToRing ==> recipient is None,
        ensures
            rung(*old(state), recipient, *final(state)),
    //% sub? ring_id\.into\(\) ==> ring_id.0
    //% sub? protobuf::signaling::call_message::ring_intention::Type::Cancelled\.into\(\) ==> 1i32
    //% sub? protobuf::signaling::call_message::ring_intention::Type::Ring\.into\(\) ==> 0i32
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% sub? state\.remote_devices\.is_empty\(\) ==> (state.remote_devices.0.len() == 0)
    //% sub assert!\(\s*recipient\.is_none\(\),\s*"[^"]*",?\s*\); ==> assert(recipient is None);
    //% head
        broadcast use taken_back;
    //% end

    //% fn Client::send_leave_to_sfu
        ensures
            left_server(*old(state), *final(state)),
    //% head
        proof { reveal(left_server); }
    //% sub use protobuf::group_call::device_to_sfu::LeaveMessage; ==> 
    //% sub DeviceToSfu \{ ==> protobuf::group_call::DeviceToSfu {
    //% sub Some\(LeaveMessage ==> Some(protobuf::group_call::device_to_sfu::LeaveMessage 
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::send_leaving_through_sfu_and_over_signaling
        ensures
            goodbye(*old(state), local_demux_id, *final(state)),
    //% head
        let ghost vx_n = state.observer.log@.len() as int;
        let ghost vx_all = without(state.joined_members@, state.self_uuid);
        let ghost vx_mid = *state;
        broadcast use set_order_is, one_more_told;
        proof {
            reveal(goodbye);
            assert(state.observer.log@.skip(vx_n) =~= Seq::<Act>::empty());
            assert(state.observer.log@.take(vx_n) =~= state.observer.log@);
            assert(leaving_sent(state.observer.log@.skip(vx_n), state.group_id@, local_demux_id, Set::<Seq<u8>>::empty()));
            assert(vx_all.difference(vx_all) =~= Set::<Seq<u8>>::empty());
            assert(vx_all.difference(Set::empty()) =~= vx_all);
            assert(Set::<Seq<u8>>::empty().union(vx_all) =~= vx_all);
            if let Some(u) = &state.self_uuid {
                assert(state.joined_members@.contains(u@) ==> vx_all.union(set![u@]) =~= state.joined_members@);
                assert(!state.joined_members@.contains(u@) ==> vx_all =~= state.joined_members@);
            }
        }
    //% before let call_message = 
        proof {
            vx_mid = *state;
            assert(tried_broadcast(*old(state), wire(protobuf::group_call::DeviceToDevice {
                leaving: Some(protobuf::group_call::device_to_device::Leaving { demux_id: None }),
                ..no_d2d()
            }), vx_mid));
        }
    //% loop 0
        invariant
            *state == (State { observer: state.observer, ..vx_mid }),
            vx_mid.observer == old(state).observer,
            vx_mid.group_id == old(state).group_id,
            says_leaving(call_message, old(state).group_id@, local_demux_id),
            0 <= vx_n <= state.observer.log@.len(),
            state.observer.log@.take(vx_n) == old(state).observer.log@,
            views(vx_it_0@).no_duplicates(),
            view_set(vx_it_0@).subset_of(vx_all),
            leaving_sent(state.observer.log@.skip(vx_n), old(state).group_id@, local_demux_id, vx_all.difference(view_set(vx_it_0@))),
        ensures
            view_set(vx_it_0@) == Set::<Seq<u8>>::empty(),
        decreases vx_it_0@.len(),
    //% loophead 0
        broadcast use one_more_told;
        proof {
            one_more_user(vx_it_0@, user_id, vx_all);
        }
    //% sub use protobuf::group_call::\{DeviceToDevice, device_to_device::Leaving\}; ==> 
    //% sub Some\(DeviceToDevice \{ ==> Some(protobuf::group_call::DeviceToDevice {
    //% sub = DeviceToDevice \{ ==> = protobuf::group_call::DeviceToDevice {
    //% sub? DeviceToDevice::default\(\) ==> VxDefault::vx_default()
    //% sub? Leaving::default\(\) ==> VxDefault::vx_default()
    //% sub? Some\(Leaving \{ ==> Some(protobuf::group_call::device_to_device::Leaving {
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% sub state\s*\.self_uuid\s*\.lock\(\)\s*\.expect\("[^"]*"\)\s*\.deref\(\) ==> &state.self_uuid
    //% sub? in &recipients ==> in recipients
    //% end

    //% fn Client::leave_inner
        ensures
            left(*old(state), *final(state)),
    //% head
        hide(goodbye);
        proof { reveal(left); }
        let ghost mut vx_a = *state;
        let ghost mut vx_b = *state;
        let ghost mut vx_c = *state;
    //% before let decryption_errors
        proof { vx_a = *state; }
    //% before match state\.join_state
        proof { vx_b = *state; assert(same_but_stats(vx_a, *state)); }
    //% before Self::send_leaving
        proof { vx_c = *state; }
    //% before Self::release_busy
        let ghost vx_d = *state;
        proof {
            if my_device(*old(state)) is None {
                vx_c = *state;
            }
            assert(media_off(vx_b, vx_c));
            if let Some(me) = my_device(*old(state)) {
                assert(said_goodbye(vx_c, me, vx_d));
            }
        }
    //% after state\.next_membership_proof_request_time = None
        proof { assert(out_of_call(vx_d, *state)); }
    //% sub let decryption_errors = \{.*?\}; ==> let decryption_errors = vx_error_stats(&mut state.frame_crypto_context);
    //% end

    //% fn Client::leave
        ensures
            left(*old(state), *final(state)),
    //% sub? &self ==> state: &mut State
    //% sub self\s*\.actor\s*\.send\(Self::leave_inner\) ==> Self::leave_inner(state)
    //% end

    //% fn Client::end
        ensures
            ended(*old(state), reason, *final(state)),
    //% head
        proof { reveal(ended); }
    //% sub let actor = state\.actor\.clone\(\);\s*actor\.send_delayed\(CLIENT_END_DELAY, move \|state\| \{.*?\n                \}\); ==> state.actor.end_delayed(reason);
    //% end

    //% fn Client::disconnect
        ensures
            ended(*old(state), CallEndReason::DeviceExplicitlyDisconnected, *final(state)),
    //% sub? &self ==> state: &mut State
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::handle_removed_received
        ensures
            ended(
                *old(state),
                if old(state).join_state is Joined {
                    CallEndReason::RemovedFromCall
                } else {
                    CallEndReason::DeniedRequestToJoinCall
                },
                *final(state),
            ),
    //% sub? actor: &Actor<State> ==> state: &mut State
    //% sub actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::on_sfu_client_join_failure
        ensures
            ended(*old(state), why_not_joined(err), *final(state)),
    //% sub? anyhow::Error ==> VxError
    //% sub err\s*\.downcast_ref::<RingRtcError>\(\)\s*\.map_or_else\(\s*\|\| (\{.*?\}),\s*\|err\| (match err \{.*?\}),\s*\) ==> match vx_cause(&err) { None => \1, Some(err) => \2 }
    //% end

    //% fn Client::join
        ensures
            match old(state).join_state {
                JoinState::NotJoined(ring) => if !old(state).busy {
                    joining(*old(state), ring, *final(state))
                } else {
                    ended(*old(state), CallEndReason::CallManagerIsBusy, *final(state))
                },
                _ => *final(state) == *old(state),
            },
    //% head
        proof { reveal(joining); }
    //% sub? &self ==> state: &mut State
    //% sub let callback = self\.clone\(\); ==> 
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub? StatsObserver::print_headers\(\); ==> 
    //% sub Some\(Instant::now\(\) \+ MEMBERSHIP_PROOF_REQUEST_INTERVAL\) ==> Some(vx_some_time())
    //% sub EphemeralSecret::random_from_rng\(OsRng\) ==> vx_random_key()
    //% sub let client_pub_key = PublicKey::from\(&client_secret\); ==> 
    //% sub state\.sfu_client\.join\(\s*&state\.local_ice_ufrag,\s*&state\.local_ice_pwd,\s*\*client_pub_key\.as_bytes\(\),\s*callback,\s*\) ==> state.sfu_client.join()
    //% end

    //% fn Client::connect
        ensures
            if old(state).connection_state is NotConnected {
                connecting(*old(state), *final(state))
            } else {
                *final(state) == *old(state)
            },
    //% head
        proof { reveal(connecting); }
    //% sub? &self ==> state: &mut State
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub Instant::now\(\) ==> vx_some_time()
    //% sub now \+ MEMBERSHIP_PROOF_REQUEST_INTERVAL ==> vx_some_time()
    //% end

    //% fn Client::approve_or_deny_user
        ensures
            answered_user(*old(state), user_id@, approved, *final(state)),
    //% head
        broadcast use listed_found;
        proof { if let Some(p) = &state.last_peek_info { listed_bounds(p.pending_devices@, user_id@); listed_bounds(p.devices@, user_id@); } }
    //% sub use protobuf::group_call::device_to_sfu::\{AdminAction, GenericAdminAction\}; ==> 
    //% sub let action_to_log = [^;]*; ==> 
    //% sub let action = if approved \{\s*(\S+)\s*\} else \{\s*(\S+)\s*\};(.*?)Some\(\(action\)\((GenericAdminAction \{.*?\})\)\) ==> \3Some(if approved { \1(\4) } else { \2(\4) })
    //% sub \bAdminAction:: ==> protobuf::group_call::device_to_sfu::AdminAction::
    //% sub \bGenericAdminAction \{ ==> protobuf::group_call::device_to_sfu::GenericAdminAction {
    //% sub = DeviceToSfu \{ ==> = protobuf::group_call::DeviceToSfu {
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% sub \.iter\(\) ==> .vx_iter()
    //% sub device\.user_id\.as_ref\(\) == Some\(&user_id\) ==> vx_is_user(&device.user_id, &user_id)
    //% closure 0
        |device: &&PeekDeviceInfo| -> (b: bool)
            ensures
                b == (device.user_id matches Some(u) && u@ == user_id@),
    //% closure 1
        |device: &PeekDeviceInfo| -> (b: DemuxId)
            ensures
                b == device.demux_id,
    //% closure 2
        |device: &&PeekDeviceInfo| -> (b: bool)
            ensures
                b == (device.user_id matches Some(u) && u@ == user_id@),
    //% closure 3
        |device: &PeekDeviceInfo| -> (b: DemuxId)
            ensures
                b == device.demux_id,
    //% end

    //% fn Client::approve_user
        ensures
            answered_user(*old(state), user_id@, true, *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::deny_user
        ensures
            answered_user(*old(state), user_id@, false, *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end

    //% fn Client::remove_client
        ensures
            requested(
                *old(state),
                no_admin(
                    protobuf::group_call::device_to_sfu::AdminAction::Remove(
                        protobuf::group_call::device_to_sfu::GenericAdminAction { target_demux_id: Some(other_client) },
                    ),
                ),
                *final(state),
            ),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub use protobuf::group_call::device_to_sfu::\{AdminAction, GenericAdminAction\}; ==> 
    //% sub \bAdminAction:: ==> protobuf::group_call::device_to_sfu::AdminAction::
    //% sub \bGenericAdminAction \{ ==> protobuf::group_call::device_to_sfu::GenericAdminAction {
    //% sub = DeviceToSfu \{ ==> = protobuf::group_call::DeviceToSfu {
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::block_client
        ensures
            requested(
                *old(state),
                no_admin(
                    protobuf::group_call::device_to_sfu::AdminAction::Block(
                        protobuf::group_call::device_to_sfu::GenericAdminAction { target_demux_id: Some(other_client) },
                    ),
                ),
                *final(state),
            ),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub use protobuf::group_call::device_to_sfu::\{AdminAction, GenericAdminAction\}; ==> 
    //% sub \bAdminAction:: ==> protobuf::group_call::device_to_sfu::AdminAction::
    //% sub \bGenericAdminAction \{ ==> protobuf::group_call::device_to_sfu::GenericAdminAction {
    //% sub = DeviceToSfu \{ ==> = protobuf::group_call::DeviceToSfu {
    //% sub Default::default\(\) ==> VxDefault::vx_default()
    //% end

    //% fn Client::set_group_members
        ensures
            if members_of(group_members@) != old(state).known_members@ {
                members_changed(*old(state), members_of(group_members@), *final(state))
            } else {
                *final(state) == *old(state)
            },
    //% head
        broadcast use members_collected;
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% sub? HashSet ==> VSet
    //% sub \.iter\(\) ==> .vx_iter()
    //% sub new_members != state\.known_members ==> vx_other_members(&new_members, &state.known_members)
    //% sub state\s*\.obfuscated_resolver\s*\.set_member_resolver\(Arc::new\(MemberMap::new\(&group_members\)\)\); ==> 
    //% closure 0
        |i: &GroupMember| -> (v: UserId)
            ensures
                v@ == i.user_id@,
    //% end

    //% fn Client::set_membership_proof
        ensures
            proof_set(*old(state), *final(state)),
    //% sub? &self, ==> state: &mut State,
    //% sub self\s*\.actor\s*\.send\(move \|state\| ==> (
    //% end
}

broadcast proof fn taken_back(s: Seq<Act>, a: Act)
    ensures
        #![trigger s.push(a)]
        s.push(a).take(s.len() as int) == s,
{
    assert(s.push(a).take(s.len() as int) =~= s);
}

impl VxDefault for VSet<UserId> {
    open spec fn vx_is_default(r: Self) -> bool {
        r@ == Set::<Seq<u8>>::empty()
    }

    fn vx_default() -> (r: Self) {
        VSet::new()
    }
}

#[verifier::external_body]
fn vx_user_copy(u: &Option<UserId>) -> (r: Option<UserId>)
    ensures
        r is Some == u is Some,
        r matches Some(x) ==> x@ == u.unwrap()@,
{
    u.clone()
}

// ---- the server let this device in --------------------------------------------------------------
// WebRTC's connection to the server, set up from its answer and the agreed keys (trusted; not replayed here)
pub uninterp spec fn connection_started(s: State, info: SfuInfo, me: DemuxId, keys: SrtpKeys) -> bool;

// what a device list changes: contract `peeked`, proved in peek.inc
pub uninterp spec fn list_taken(before: State, after: State) -> bool;

// the keys are agreed on, the connection is started, at the rate of someone alone; or else the call ends
#[verifier::opaque]
spec fn server_answered(before: State, j: Joined, goes_on: bool, after: State) -> bool {
    if before.connection_state is Connecting {
        exists|a: State| #[trigger]
            keys_agreed(before, j, a) && match a.dhe_state {
                DheState::Negotiated { srtp_keys } => if connection_started(a, j.sfu_info, j.local_demux_id, srtp_keys) {
                    goes_on && exists|b: State, r: SendRates| #[trigger]
                        rates_set(a, b, r) && bps_is(r.min, None) && bps_is(r.start, None) && bps_is(r.max, Some(1000int))
                            && after == (State { sfu_info: Some(j.sfu_info), ..b })
                } else {
                    !goes_on && ended(a, CallEndReason::FailedToStartPeerConnection, after)
                },
                _ => !goes_on && ended(a, CallEndReason::FailedToNegotiatedSrtpKeys, after),
            }
    } else {
        goes_on && after == before
    }
}

pub open spec fn keys_agreed(before: State, j: Joined, after: State) -> bool {
    &&& after == (State { dhe_state: after.dhe_state, ..before })
    &&& negotiated(before.dhe_state, j.server_dhe_pub_key@, j.hkdf_extra_info@, after.dhe_state)
}

#[verifier::opaque]
pub open spec fn said_joined(before: State, after: State) -> bool {
    &&& after == (State { observer: after.observer, ..before })
    &&& after.observer.log@ == before.observer.log@.push(Act::JoinState(before.join_state))
}

// a list known before is applied now that this device is in
#[verifier::opaque]
pub open spec fn old_list_taken(before: State, after: State) -> bool {
    if before.last_peek_info is Some {
        exists|m: State| #[trigger]
            list_taken(before, m) && after == (State { observer: after.observer, ..m }) && after.observer.log@ == if m.remote_devices.0@.len() == 0 {
                m.observer.log@.push(Act::DevicesChanged { why: RemoteDevicesChangedReason::DemuxIdsChanged })
            } else {
                m.observer.log@
            }
    } else {
        after == before
    }
}

pub open spec fn may_ring(before: State, j: Joined) -> OutgoingRingState {
    if before.self_uuid matches Some(me) && (j.creator matches Some(c) && c@ == me@) {
        OutgoingRingState::PermittedToRing { ring_id: RingId(ring_id_of(utf8(j.era_id@))) }
    } else {
        OutgoingRingState::NotPermittedToRing
    }
}

// who created the call may ring, and does if asked to before
#[verifier::opaque]
pub open spec fn ring_settled(before: State, j: Joined, after: State) -> bool {
    if j.creator is Some {
        let m = State { outgoing_ring_state: may_ring(before, j), ..before };
        match before.outgoing_ring_state {
            OutgoingRingState::WantsToRing { recipient } => rung(m, recipient, after),
            _ => after == m,
        }
    } else {
        after == before
    }
}

// only a device that is joining becomes a member
#[verifier::opaque]
pub open spec fn entered(before: State, j: Joined, after: State) -> bool {
    after == (State { join_state: j.join_state, ..before })
}

#[verifier::opaque]
spec fn taken_in_now(before: State, j: Joined, after: State) -> bool {
    exists|a: State, a2: State, b: State, c: State, d: State, e: State| #[trigger]
        list_asked(before, a) && #[trigger] entered(a, j, a2) && #[trigger] old_list_taken(a2, b) && #[trigger] said_joined(b, c)
            && #[trigger] audio_set(c, d) && #[trigger] ring_settled(d, j, e) && {
            &&& after == (State {
                next_stats_time: after.next_stats_time,
                next_decryption_error_time: after.next_decryption_error_time,
                ..e
            })
            &&& after.next_stats_time is Some
            &&& after.next_decryption_error_time is Some
        }
}

spec fn taken_in(before: State, j: Joined, after: State) -> bool {
    if before.join_state is Joining {
        taken_in_now(before, j, after)
    } else {
        after == before
    }
}

#[verifier::opaque]
pub open spec fn audio_set(before: State, after: State) -> bool {
    after == (State { peer_connection: after.peer_connection, ..before })
}

pub open spec fn list_asked(before: State, after: State) -> bool {
    exists|now: Instant| #[trigger] a_time(now) && devices_asked(before, 0, true, now, after)
}

spec fn join_answered(before: State, j: Joined, after: State) -> bool {
    exists|m: State, on: bool| #[trigger] server_answered(before, j, on, m) && if on { taken_in(m, j, after) } else { after == m }
}

#[verifier::external_body]
fn vx_made_by(me: &Option<UserId>, creator: &Option<UserId>) -> (r: bool)
    ensures
        r == (match (me, creator) {
            (Some(a), Some(b)) => a@ == b@,
            (None, None) => true,
            _ => false,
        }),
{
    me == creator
}

impl Client {
    #[verifier::external_body]
    fn set_peek_result_inner(state: &mut State, result: Result<PeekInfo, VxError>, expiration: Option<Timestamp>)
        ensures
            list_taken(*old(state), *final(state)),
            final(state).outgoing_ring_state is WantsToRing ==> final(state).outgoing_ring_state == old(state).outgoing_ring_state,
    {
    }

    #[verifier::external_body]
    fn start_peer_connection(state: &State, info: &SfuInfo, me: DemuxId, keys: &SrtpKeys) -> (r: Result<(), VxError>)
        ensures
            r is Ok == connection_started(*state, *info, me, *keys),
    {
        unimplemented!()
    }

    //% fn Client::on_sfu_client_join_success@JoinState::Joining => \{ as vx_take_in
        requires
            old(state).outgoing_ring_state matches OutgoingRingState::WantsToRing { recipient } ==> recipient is None,
        ensures
            taken_in_now(*old(state), joined, *final(state)),
    //% sig fn vx_take_in(state: &mut State, joined: Joined)
    //% head
        hide(devices_asked);
        hide(rung);
        hide(ring_id_of);
        broadcast use list_keeps_ring;
        proof { reveal(taken_in_now); }
        let ghost vx_j = joined;
        let ghost mut vx_c = *state;
        let ghost mut vx_d = *state;
        let ghost mut vx_e = *state;
        let ghost mut vx_e2 = *state;
        let ghost mut vx_f = *state;
        let ghost vx_m = *state;
    //% before state\.join_state = 
        proof { vx_c = State { join_state: joined.join_state, ..*state }; assert(list_asked(vx_m, *state)); assert(entered(*state, vx_j, vx_c)) by { reveal(entered); } }
    //% before if [^;{]*state\.remote_devices
        proof { vx_d = *state; assert(list_taken(vx_c, vx_d)); }
    //% before if \(match joined
        proof { vx_e2 = *state; assert(said_joined(vx_e, vx_e2)) by { reveal(said_joined); } }
    //% before if joined\.creator
        proof { vx_f = *state; }
    //% before state\.next_stats_time
        proof { assert(ring_settled(vx_f, vx_j, *state)) by { reveal(ring_settled); } assert(audio_set(vx_e2, vx_f)) by { reveal(audio_set); } }
    //% sub state\s*\.observer\s*\.handle_join_state_changed ==> proof { vx_e = *state; assert(old_list_taken(vx_c, vx_e)) by { reveal(old_list_taken); } } state.observer.handle_join_state_changed
    //% sub std::mem::replace\( ==> vx_replace(
    //% sub let self_uuid_guard = state\.self_uuid\.lock\(\);\s*self_uuid_guard\s*\.map\(\|guarded_uuid\| joined\.creator == \*guarded_uuid\)\s*\.unwrap_or\(false\) ==> vx_made_by(&state.self_uuid, &joined.creator)
    //% sub? state\.remote_devices\.is_empty\(\) ==> (state.remote_devices.0.len() == 0)
    //% sub Instant::now\(\) \+ \w+ ==> vx_some_time()
    //% sub? peek_info\.clone\(\) ==> vx_peek_copy(peek_info)
    //% end

    //% fn Client::on_sfu_client_join_success
        requires
            old(state).outgoing_ring_state matches OutgoingRingState::WantsToRing { recipient } ==> recipient is None,
        ensures
            join_answered(*old(state), joined, *final(state)),
    //% head
        hide(ended);
        hide(negotiated);
        hide(rates_set);
        broadcast use rates_keep_ring;
        proof { reveal(server_answered); }
        let ghost vx_j = joined;
        let ghost mut vx_a = *state;
        let ghost mut vx_b = *state;
    //% before let srtp_keys
        proof { vx_a = *state; assert(keys_agreed(*old(state), vx_j, vx_a)); }
    //% before state\.sfu_info = 
        proof { vx_b = *state; }
    //% cut JoinState::Joining => \{ ==> JoinState::Joining => { Self::vx_take_in(state, joined) }
    //% before match state\.join_state
        proof { assert(server_answered(*old(state), vx_j, true, *state)); }
    //% sub? Self::end\(state, ([\w:]+)\);\s*return; ==> Self::end(state, \1); proof { assert(server_answered(*old(state), vx_j, false, *state)); } return;
    //% sub? SendRates::default\(\) ==> VxDefault::vx_default()
    //% sub? Some\(joined\.sfu_info\) ==> Some(vx_info_copy(&joined.sfu_info))
    //% end
}

broadcast proof fn list_keeps_ring(a: State, b: State, max_age: u64, again: bool, now: Instant)
    requires
        #[trigger] devices_asked(a, max_age, again, now, b),
    ensures
        b.outgoing_ring_state == a.outgoing_ring_state,
{
}

broadcast proof fn rates_keep_ring(a: State, b: State, r: SendRates)
    requires
        #[trigger] rates_set(a, b, r),
    ensures
        b.outgoing_ring_state == a.outgoing_ring_state,
{
}

#[verifier::external_body]
fn vx_info_copy(i: &SfuInfo) -> (r: SfuInfo)
    ensures
        r == *i,
{
    unimplemented!()
}

#[verifier::external_body]
fn vx_peek_copy(p: &PeekInfo) -> PeekInfo {
    unimplemented!()
}
