"""property -> what decides it.

verus:   {template: [functions and lemmas the property rests on]}   (regexes, full match)
harness: (crate, property argument) - the contracts as executable checks on the compiled code,
         used to replay a failed obligation on concrete inputs, and to stand in (bounded) for a
         function the verifier could not be given
kani:    {crate: [harness names]}   full-domain, loop-free or fully unwound: complete
"""

WINDOW = [r"BufferWindow::.*"]
MERGE = [r"MergeBuffer::.*"]

PROPS = {
    "R01": dict(verus={"mrp": WINDOW}, harness=("mrp", "R01")),
    "R02": dict(
        verus={"mrp": WINDOW + [
            r"PacketWrapper::new", r"MrpStream::(with_capacity_limit|receive|update_receiver_window|ack_seqnum|"
            r"receive_len|receive_and_merge|merge_packets|fail_merge)", r"Default for MrpStream::default"] + MERGE +
            [r"lemma delivery_in_order_exactly_once", r"lemma nothing_held_back", r"lemma arrived_before"]},
        harness=("mrp", "R02")),
    "R03": dict(
        verus={"mrp": WINDOW + [
            r"MrpStream::(with_capacity_limit|next_seqnum|send_len|try_send|try_send_fragmented|receive|"
            r"update_send_window)", r"Default for MrpStream::default"]},
        harness=("mrp", "R03")),
    "R04": dict(
        verus={"mrp": WINDOW + MERGE + [
            r"PacketWrapper::new",
            r"MrpStream::(try_send|try_send_fragmented|next_seqnum|receive_and_merge|merge_packets|fail_merge|"
            r"update_receiver_window|with_capacity_limit)",
            r"lemma (mrun_prefix|fragments_so_far|fragments_reassemble|batches_do_not_matter)"]},
        harness=("mrp", "R04")),
    "R05": dict(
        verus={"mrp": WINDOW + [
            r"PendingPacket::should_transmit",
            r"MrpStream::(try_resend|try_send_ack|ack_seqnum|receive|receive_and_merge|update_receiver_window|"
            r"update_send_window|try_send)"]},
        harness=("mrp", "R05")),
}

PRIM = ["AES-256-CTR, HMAC-SHA256 and HKDF-SHA256 are uninterpreted functions: the aes/ctr, hmac, sha2 and hkdf crates are "
        "trusted to compute them (the replay harness compares against an independent use of the same crates)"]
KEYS = [r"safe_copy_array", r"convert_frame_counter_to_iv", r"SenderState::.*"]
MACS = [r"len_as_u32_be_bytes", r"check_mac", r"decrypt_internal"]
OPEN = KEYS + MACS + [r"ReceiverState::.*", r"Context::(new|decrypt|get_mut_ref_state_vec_by_id|add_receive_secret)"]

PROPS.update({
    "F01": dict(
        verus={"crypto": OPEN + [r"Context::(encrypt|advance_send_ratchet|reset_send_ratchet|send_state)",
                                 r"lemma (xor_twice|crypted_twice|frame_round_trip|chain_adds|steps_ahead_are_reached)"]},
        harness=("crypto", "F01"),
        assumptions=PRIM + ["fewer than 2^64 frames are sent with one context",
                            "round trip through a state with a different secret: assumes that MAC does not verify (unforgeability)"]),
    "F02": dict(
        verus={"crypto": OPEN + [r"lemma (chain_adds|opened_means_authentic)",
                                 r"DecryptionErrorStats::.*|Default for DecryptionErrorStats::default",
                                 r"DecryptionErrorTracker::increment_decryption_error"]},
        harness=("crypto", "F02"),
        assumptions=PRIM + ["fewer than 2^32 errors are counted per sender between two reports"]),
    "F03": dict(
        verus={"crypto": KEYS + [r"Context::(new|encrypt|send_state|advance_send_ratchet|reset_send_ratchet)"]},
        harness=("crypto", "F03"),
        assumptions=PRIM + ["fewer than 2^64 frames are sent with one context"]),
    "F04": dict(
        verus={"crypto": OPEN + [r"Context::(encrypt|advance_send_ratchet|reset_send_ratchet)"]},
        harness=("crypto", "F04"), assumptions=PRIM),
    "F05": dict(
        verus={"crypto": OPEN + [r"lemma (chain_adds|ctr_dist|fresh_state_tracks|frame_in_reach_finds_its_key|"
                                 r"opening_keeps_tracking|steps_ahead_are_reached)"]},
        harness=("crypto", "F05"),
        assumptions=PRIM + ["the sender's key step never decreases from one frame to the next and moves by fewer than 250 "
                            "between the frames concerned (8-bit key step counter)"]),
    "F07": dict(
        verus={"crypto": [r"DecryptionErrorStats::.*|Default for DecryptionError(Stats|Tracker)::default",
                          r"DecryptionErrorTracker::.*",
                          r"Context::(new|decrypt|encrypt|advance_send_ratchet|reset_send_ratchet|add_receive_secret|"
                          r"get_error_report|get_error_stats|get_mut_ref_state_vec_by_id)"]},
        harness=("crypto", "F07"),
        assumptions=["one clock reading per call, any value (also one running backwards)",
                     "fewer than 2^32 errors are counted per sender between two reports",
                     "std::collections::HashMap behaves as a map (trusted contracts in verus/map.inc)"]),
})

PROPS["F06"] = dict(
    verus={"crypto": OPEN + [r"Context::(encrypt|send_state)", r"Writer::.*", r"Reader::.*",
                             r"Client::(get_(cipher|plain)text_buffer_size|(en|de)crypt(_media|_data)?)",
                             r"lemma (footer_reads_back|framed_round_trip|frame_round_trip|be_\w+|crypted_twice|xor_twice)"]},
    harness=("full", "F06"),
    assumptions=PRIM + ["the mutex around the context is read as exclusive access for the length of the call; a poisoned "
                        "mutex is out of scope", "the overlapping copy (memmove) copies its input (trusted)",
                        "HMAC-SHA256 is 32 bytes long (axiom)", "fewer than 2^64 frames are sent with one context"])

BASE16 = [r"Base16Table::new|Index<u8> for Base16Table::index|From<&'a\[u8\]> for ConsonantBase16::from",
          r"Display for ConsonantBase16::fmt", r"ConsonantBase16::parse(_with_separators)?",
          r"lemma (text_not_empty|alphabet_facts|nothing_fits|turn|all_read|always_printed|spare_groups|one_group|join|"
          r"total_positive|unique)"]
ROOT = [r"has_repeated_chunk", r"(CallLinkRootKeyOps|TryFrom<&(str|\[u8\])>) for CallLinkRootKey(V0|V1)?::.*",
        r"TryFrom<&(str|\[u8\])> for CallLinkRootKey::.*", r"CallLinkRootKey(V0|V1)?::.*",
        r"lemma (same_digit|consts_v1|v0_groups|v1_groups|one_key_per_text|mixed|names_round_trip)"]
TEXTS = ["a text is its UTF-8 bytes; std::fmt is trusted to hand Display::fmt the precision and fill of the format "
         "string and to concatenate what is written (the three format strings are rewritten by declared substitutions)"]
PROPS.update({
    "K01": dict(verus={"keys": BASE16}, harness=("keys", "K01"), assumptions=TEXTS),
    "K02": dict(verus={"keys": BASE16 + ROOT}, harness=("keys", "K02"),
                assumptions=TEXTS + ["HKDF-SHA256 is an uninterpreted function of its input",
                                     "dispatch through the trait object is read as a match on the variant",
                                     "key generation: the random generator may return anything (termination not claimed)"]),
    "K03": dict(verus={"keys": [x for x in ROOT if not x.startswith("lemma")] +
                       [r"lemma (consts_v1|names_round_trip)"]},
                harness=("keys", "K03"),
                assumptions=["AES-256-GCM-SIV opens what it sealed (axiom seal_opens); that nothing else opens is its "
                             "security claim, trusted", "names shorter than 2^31 bytes"]),
})

DH = ["X25519 and HKDF-SHA256 are uninterpreted functions; the two ends compute the same shared secret (the harness runs a "
      "stand-in exchange with that property, and compares the derivation with an independent HKDF)"]
UNITS = [r"DataRate::.*", r"DataSize::.*"]
PROPS.update({
    "U01": dict(verus={"units": UNITS + [r"Add<DataSize> for DataSize::add", r"lemma units_round_trip"]}, harness=("full", "U01"),
                assumptions=["products and sums fit 64 bits (checked builds panic otherwise)",
                             "multiplication and division by durations (floating point) are not covered"]),
    "U03": dict(verus={"srtp": [r"safe_copy_array", r"SafeSlicing.*"]}, harness=("full", "U03")),
    "C06": dict(verus={"srtp": [r"SafeSlicing<T> for \[T;N\]::safe_copy_from_slice", r"SrtpCryptoSuite::.*", r"negotiate_srtp_keys",
                                r"lemma key_parts"]}, harness=("full", "C06"), assumptions=DH),
    "G02": dict(verus={"srtp": [r"SrtpCryptoSuite::.*", r"SrtpKeys::.*", r"DheState::.*",
                                r"lemma (key_parts|KEY_LEN|SALT_LEN|MASTER_KEY_MATERIAL_LEN|SUITE)"]},
                harness=("full", "G02"), assumptions=DH),
})

ACTOR = ["the actor runs one task at a time on its state; a task it is given to run later is a logged request (ghost), what "
         "the task does is a contract of its own",
         "the observer, the SFU client and the WebRTC connection are the outside world: calls to them are logged in ghost state"]
SENDS = [r"Client::send_media_send_key_to_users_over_signaling", r"Client::rotate_media_send_key_and_send_to_users_not_removed(#1)?",
         r"Client::advance_media_send_key_and_send_to_users_with_added_devices",
         r"Client::send_pending_media_send_key_to_users_with_added_devices",
         r"lemma (sent_push|walk_step|one_more_user|one_more_act|users_collected)"]
TAKES = [r"Client::add_media_receive_key_or_store_for_later", r"RemoteDevices::.*", r"lemma spot.*"]
PEEK = [r"Client::set_peek_result_inner(#\d|@.*)?", r"RemoteDeviceState::new"]
PROPS.update({
    "G03": dict(verus={"group": [r"DataRate::.*", r"Client::(compute_send_rates|set_send_rates_inner)"],
                       "peek": [r"Client::set_peek_result_inner"]}, harness=("full", "G03"), assumptions=ACTOR),
    "G05": dict(verus={"group": SENDS + [r"RemoteDevices::demux_id_set"], "peek": [r"Client::set_peek_result_inner"]},
                harness=("full", "G05"), assumptions=ACTOR + PRIM),
    "G06": dict(verus={"group": TAKES, "peek": [r"Client::set_peek_result_inner"]}, harness=("full", "G06"), assumptions=ACTOR),
    "G07": dict(verus={"peek": PEEK + [r"lemma (listed_step|filter_has|slots_\w+|filled_slots)"],
                       "group": [r"RemoteDevices::demux_id_set"]}, harness=("full", "G07"),
                assumptions=ACTOR),
})

GROUP = ACTOR + ["start_peer_connection, the reliable stream's callbacks and tick are external with named relations (the list update "
                 "itself is proved in peek.inc); send_decryption_stats_inner with its frame"]
OPENS = [r"Client::(set_connection_state|set_join_state)_and_notify_observer", r"Client::(take|release)_busy", r"Client::(join|connect|leave|"
         r"leave_inner|end|disconnect|handle_removed_received|on_sfu_client_join_failure)", r"Client::on_sfu_client_join_success(@.*)?",
         r"Client::send_leave_to_sfu", r"Client::send_leaving_through_sfu_and_over_signaling",
         r"Client::(approve_or_deny_user|approve_user|deny_user|remove_client|block_client)", r"lemma one_more_told"]
PROPS.update({
    "G01": dict(verus={"remote": OPENS + [r"DheState::.*"]}, harness=("full", "G01"), assumptions=GROUP),
    "G04": dict(verus={"remote": [r"RemoteDeviceState::.*", r"From<protobuf::group_call::device_to_device::Heartbeat> for HeartbeatState::from",
                                  r"Client::handle_(heartbeat_received|leaving_received|reaction|remote_mute_request|raised_hands|"
                                  r"speaker_received|forwarding_video_received)(#\d)?", r"RemoteDevices::.*"]},
                harness=("full", "G04"), assumptions=GROUP),
    "G08": dict(verus={"remote": [r"Client::(ring_inner|cancel_full_group_ring_if_needed|accept_ring_if_needed|provide_ring_id_if_absent)",
                                  r"Client::on_sfu_client_join_success(@.*)?", r"Client::(join|leave_inner)"],
                       "group": [r"RingId::from_era_id", r"lemma ring_ids_differ"]}, harness=("full", "G08"), assumptions=GROUP),
    "G09": dict(verus={"remote": [r"Client::(unreliable_send_data_inner|unreliable_send_data_to_sfu|broadcast_data_through_sfu)",
                                  r"Client::send_(heartbeat|reaction|raise_hand|remote_mute_request|leave_to_sfu)",
                                  r"Client::set_(outgoing_.*|presenting|sharing_screen)", r"Client::(react|raise_hand|override_send_rates)"]},
                harness=("full", "G09"), assumptions=GROUP + ["fewer than 2^32 - 1 changes of the raised hand"]),
    "G10": dict(verus={"group": [r"Client::(maybe_request_remote_devices|request_remote_devices_.*)"],
                       "remote": [r"Client::(set_group_members|set_membership_proof|handle_leaving_received(#\d)?)",
                                  r"Client::on_sfu_client_join_success(@.*)?"],
                       "peek": [r"Client::set_peek_result_inner"]}, harness=("full", "G10"), assumptions=GROUP),
})

FSM = ["the worker and notification queues run their tasks one at a time; a task is a logged request (ghost), what it does is a "
       "contract of its own",
       "the call, the media engine and the RTP transport are the outside world: what is told to them is logged in ghost state",
       "a message's bytes are an uninterpreted function of its content (protobuf encoding trusted)"]
LIMITS = [r"BandwidthController::.*", r"Connection::(set_network_route|set_remote_max_bitrate|update_data_mode)(#\d)?",
          r"Connection::(update_bandwidth_controller|apply_bandwidth_controller)", r"DataMode::.*", r"DataRate::.*"]
SAID = [r"Connection::(update_and_send_rtp_data_message|send_latest_rtp_data_message|send_via_rtp_data)",
        r"Connection::(send_hangup_via_rtp_data|send_accepted_via_rtp_data|update_sender_status_from_fsm|update_data_mode)(#\d)?",
        r"RtpObserverTrait for Connection::handle_rtp_received", r"Connection::inject_.*", r"Hangup::.*", r"HangupType::.*",
        r"lemma hangups_come_back"]
PROPS.update({
    "C05": dict(verus={"conn": [r"ConnectionStateMachine::.*", r"CallState::.*", r"ConnectionState::.*",
                                r"Connection::(call_id|direction|state|set_state|terminating)"]},
                harness=("full", "C05"), assumptions=FSM),
    "C07": dict(verus={"conn": LIMITS + [r"ConnectionStateMachine::(handle_update_data_mode(#\d)?|handle_remote_receiver_status_changed|"
                                         r"handle_received_receiver_status_via_rtp_data|handle_ice_network_route_changed)"]},
                harness=("full", "C07"), assumptions=FSM),
    "C08": dict(verus={"conn": SAID + [r"ConnectionStateMachine::handle_received_(hangup|\w+_via_rtp_data)",
                                       r"ConnectionStateMachine::handle_(send_hangup_via_rtp_data|update_sender_status)(#\d)?"]},
                harness=("full", "C08"), assumptions=FSM + ["fewer than 2^32 packets and 2^64 messages are sent per connection"]),
})

COMMON_ASSUMPTIONS = [
    "the extraction: comments, attributes, visibility and log macros are dropped; assert!/panic!/format!/anyhow! "
    "and `for`/let-chains are desugared; `impl FnMut` parameters are read as `impl Fn` (a callback whose relation "
    "between argument and result does not depend on how often it was called)",
    "trusted contracts on std (trusted_base), checked against nothing",
    "rustc, Verus, Z3",
]
