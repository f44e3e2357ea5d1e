// Access to private items of the parent module; decides nothing.
use super::*;
pub type Ctx = frame_crypto::Context;

pub fn ciphertext_size(n: usize) -> usize {
    Client::get_ciphertext_buffer_size(n)
}
pub fn plaintext_size(n: usize) -> usize {
    Client::get_plaintext_buffer_size(n)
}
pub fn seal(c: &mut Ctx, plain: &[u8], out: &mut [u8]) -> Result<usize> {
    Client::encrypt(c, plain, out)
}
pub fn open(c: &mut Ctx, from: DemuxId, frame: &[u8], out: &mut [u8]) -> Result<usize> {
    Client::decrypt(c, from, frame, out)
}
/// the ciphertext at the start of the buffer it is decrypted into, as WebRTC may call it
pub fn open_in_place(c: &mut Ctx, from: DemuxId, buf: &mut [u8], n: usize, shift: usize) -> Result<usize> {
    let p = buf.as_mut_ptr();
    let (frame, out) = unsafe {
        (std::slice::from_raw_parts(p.add(shift), n), std::slice::from_raw_parts_mut(p, buf.len()))
    };
    Client::decrypt(c, from, frame, out)
}

// ---- a client driven by the harness ----
use std::collections::BTreeSet;

pub struct Start {
    pub link: bool,
    pub me: Option<UserId>,
    pub busy: Arc<CallMutex<bool>>,
    pub ring: Option<RingId>,
    pub cache: Option<EndorsementsCache>,
    pub group: GroupId,
    pub id: ClientId,
}

pub fn start(p: Start, sfu: Box<dyn SfuClient + Send>, obs: Box<dyn Observer + Send>, res: ObfuscatedResolver) -> Client {
    let track = AudioTrack::new(
        webrtc::Arc::from_owned(unsafe {
            webrtc::ptr::OwnedRc::from_ptr(&crate::webrtc::sim::media::FAKE_AUDIO_TRACK as *const u32)
        }),
        None,
    );
    Client::start(ClientStartParams {
        group_id: p.group,
        client_id: p.id,
        kind: if p.link { GroupCallKind::CallLink } else { GroupCallKind::SignalGroup },
        sfu_client: sfu,
        obfuscated_resolver: res,
        observer: obs,
        busy: p.busy,
        self_uuid: Arc::new(CallMutex::new(p.me, "self")),
        asset_registry: AssetRegistry::default(),
        peer_connection_factory: None,
        outgoing_audio_track: track,
        outgoing_video_track: None,
        incoming_video_sink: None,
        ring_id: p.ring,
        dred_duration: 0,
        audio_levels_interval: None,
        group_send_endorsement_cache: p.cache,
    })
    .expect("client")
}

pub fn sink(c: &Client, f: Box<dyn Fn(rtp::Header, &[u8]) + Send>) {
    c.actor.vx_with(|s| s.peer_connection.set_rtp_packet_sink(f));
}
pub fn rtp_in(c: &Client, h: rtp::Header, payload: &[u8]) {
    c.handle_rtp_received(h, payload);
}
pub fn ice(c: &Client, to: IceConnectionState) {
    c.actor.vx_with(|s| {
        let _ = s.peer_connection_observer_impl.handle_ice_connection_state_changed(to);
    });
}
pub fn frame_height(c: &Client, d: DemuxId, height: u32) {
    c.actor.vx_with(|s| {
        let m = VideoFrameMetadata::vx_of(height);
        let _ = s.peer_connection_observer_impl.handle_incoming_video_frame(d, m, None);
    });
}
pub fn stopped(c: &Client) -> bool {
    c.actor.vx_stopped()
}
pub fn forget(c: &Client) {
    c.actor.vx_with(|s| {
        s.rtp_observer_impl = None;
        s.rtp_observer_ptr = None;
    });
    c.actor.vx_drop();
}
pub fn seen_muting(d: &RemoteDeviceState) -> BTreeSet<DemuxId> {
    d.remote_mute_requesters.iter().copied().collect()
}
pub fn heartbeat_ts(d: &RemoteDeviceState) -> Option<u32> {
    d.heartbeat_rtp_timestamp
}
pub fn receive_keys(c: &Ctx) -> Vec<(DemuxId, Vec<(u8, Vec<u8>)>)> {
    crate::core::crypto::vx_probe::receive_keys(c)
}

/// what the state holds, for the fields a contract speaks of
pub struct Seen {
    pub conn: ConnectionState,
    pub join: JoinState,
    pub negotiated: bool,
    pub keys: Option<(Vec<u8>, Vec<u8>, Vec<u8>, Vec<u8>)>,
    pub devices: Vec<RemoteDeviceState>,
    pub slots: Vec<Option<DemuxId>>,
    pub members: BTreeSet<UserId>,
    pub has_peek: bool,
    pub request: String,
    pub send: (u8, Vec<u8>),
    pub rotation: Option<(Vec<u8>, bool)>,
    pub pending_keys: Vec<(UserId, DemuxId, u8, Vec<u8>)>,
    pub receive: Vec<(DemuxId, Vec<(u8, Vec<u8>)>)>,
    pub rates: SendRates,
    pub outgoing: HeartbeatState,
    pub ring: String,
    pub hands: (u32, bool, bool, Vec<DemuxId>),
    pub busy: bool,
}

pub fn seen(c: &Client) -> Option<Seen> {
    c.actor.vx_with(|s| {
        let ctx = s.frame_crypto_context.lock().unwrap();
        let send = ctx.send_state();
        Seen {
            conn: s.connection_state,
            join: s.join_state,
            negotiated: matches!(s.dhe_state, DheState::Negotiated { .. }),
            keys: match &s.dhe_state {
                DheState::Negotiated { srtp_keys: k } => Some((k.client.key.clone(), k.client.salt.clone(), k.server.key.clone(), k.server.salt.clone())),
                _ => None,
            },
            devices: s.remote_devices.iter().cloned().collect(),
            slots: s.remote_transceiver_demux_ids.clone(),
            members: s.joined_members.iter().cloned().collect(),
            has_peek: s.last_peek_info.is_some(),
            request: match &s.remote_devices_request_state {
                RemoteDevicesRequestState::WaitingForMembershipProof => "waiting".into(),
                RemoteDevicesRequestState::NeverRequested => "never".into(),
                RemoteDevicesRequestState::Requested { should_request_again, .. } => format!("requested again={should_request_again}"),
                RemoteDevicesRequestState::Updated { .. } => "updated".into(),
                RemoteDevicesRequestState::Failed { .. } => "failed".into(),
            },
            send: (send.0, send.1.to_vec()),
            rotation: match &s.media_send_key_rotation_state {
                KeyRotationState::Applied => None,
                KeyRotationState::Pending { secret, needs_another_rotation } => Some((secret.to_vec(), *needs_another_rotation)),
            },
            pending_keys: s.pending_media_receive_keys.iter().map(|k| (k.0.clone(), k.1, k.2, k.3.to_vec())).collect(),
            receive: crate::core::crypto::vx_probe::receive_keys(&ctx),
            rates: s.send_rates.clone(),
            outgoing: s.outgoing_heartbeat_state.clone(),
            ring: format!("{:?}", s.outgoing_ring_state),
            hands: (s.raise_hand_state.seqnum, s.raise_hand_state.raise, s.raise_hand_state.outstanding, s.raised_hands.clone()),
            busy: *s.busy.lock().unwrap(),
        }
    })
}

pub fn ring_id_of(era: &str) -> i64 {
    RingId::from_era_id(era).into()
}
pub fn srtp_from(master: &[u8; 56]) -> [Vec<u8>; 4] {
    let k = SrtpKeys::from_master_key_material(master);
    [k.client.key, k.client.salt, k.server.key, k.server.salt]
}
pub fn dhe(secret: EphemeralSecret, server: [u8; 32], info: &[u8], again: Option<[u8; 32]>) -> Option<[Vec<u8>; 4]> {
    let mut d = DheState::start(secret);
    d.negotiate_in_place(&PublicKey::from(server), info);
    if let Some(a) = again {
        d.negotiate_in_place(&PublicKey::from(a), info);
    }
    match d {
        DheState::Negotiated { srtp_keys: k } => Some([k.client.key, k.client.salt, k.server.key, k.server.salt]),
        _ => None,
    }
}
pub fn rates(others: usize, screen: bool) -> SendRates {
    Client::compute_send_rates(others, screen)
}
pub fn call_full() -> anyhow::Error {
    RingRtcError::GroupCallFull.into()
}
