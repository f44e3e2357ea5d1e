#!/usr/bin/env python3
"""The property list; `python3 tools/properties_src.py` writes properties.jsonl and MANIFEST.json.

Each entry: id, title, statement, over, text (quantifier), why (tests), files, mechanism [(name, where)],
optional state, observe; claimed entries have a record in tools/props.py, the others carry `na`.
"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files,
                  mechanism=mechanism, state=state, observe=observe, na=na, note=note))


# ------------------------------------------------------------------ mini reliable protocol (MRP)
p("R01", "The MRP sliding window is an exact bounded map",
  "The window that both directions of the reliable protocol are built on accepts an element exactly when its number is "
  "within the capacity from the left edge, and storing one disturbs no other number. Taking from the front yields exactly the "
  "longest unbroken run of stored elements in order and moves the left edge past it. Dropping k from the front removes "
  "exactly the k lowest numbers.",
  "histories inputs", "every sequence of window operations, every sequence number, every capacity",
  "The tests put a handful of hand-picked numbers into windows of size 4 to 10; the guarantee is over every history and "
  "every 64-bit sequence number, including both ends of the range.",
  ["mrp/src/window.rs"],
  [("position of a number relative to the edges", "mrp/src/window.rs get_pos"),
   ("insert with gap filling", "mrp/src/window.rs put"),
   ("maximal run", "mrp/src/window.rs drain_front"), ("acknowledged prefix", "mrp/src/window.rs drop_front")],
  [("sliding window", "numbers not yet delivered/acknowledged and what is stored under each", "mrp/src/window.rs BufferWindow")])

p("R02", "MRP delivers each payload in order, exactly once",
  "Whatever order, duplication or loss the transport inflicts, a receiver hands the application each numbered packet exactly "
  "once and in number order, and hands it over immediately together with every directly following packet it already holds. "
  "Duplicates and packets beyond the receive window deliver nothing and disturb nothing. A packet that carries neither number "
  "nor acknowledgement is handed straight back.",
  "histories inputs fault_sequences", "every sequence of arriving packets (reordered, duplicated, lost, forged numbers)",
  "The tests replay a few fixed shuffles; in-order exactly-once is a claim about every arrival history.",
  ["mrp/src/stream.rs", "mrp/src/window.rs"],
  [("receive window", "mrp/src/stream.rs receive / update_receiver_window"), ("in-order run", "mrp/src/window.rs drain_front")],
  [("receive window", "packets that arrived ahead of a gap", "mrp/src/stream.rs MrpStream")])

p("R03", "MRP numbers, buffers and releases sent packets exactly",
  "Each packet accepted for sending gets the next unused number, starting from 1, and stays buffered until acknowledged; a "
  "send refused because the window is full or because the transport failed buffers nothing and uses up no number. An "
  "acknowledgement of n releases exactly the packets numbered below n. Old or impossible acknowledgements change nothing.",
  "histories inputs fault_sequences", "every interleaving of sends, transport failures and acknowledgements with any value",
  "The tests acknowledge a few packets in a row; impossible, stale and extreme acknowledgements and failing transports are "
  "not enumerable by example.",
  ["mrp/src/stream.rs", "mrp/src/window.rs"],
  [("send window", "mrp/src/stream.rs try_send"), ("acknowledgement", "mrp/src/stream.rs update_send_window"),
   ("prefix release", "mrp/src/window.rs drop_front")])

p("R04", "MRP fragments reassemble to exactly the message sent",
  "A message sent in fragments occupies consecutive numbers with the count announced on the first, is accepted whole or not at "
  "all, and is received as exactly one message made of those fragments in order however arrivals are batched. A group with an "
  "oversize count, or one that starts inside an unfinished group, is refused with an error. The unfinished group is then "
  "dropped and its remaining fragments are never delivered as messages.",
  "histories inputs", "every message size, every window fill, every batching and reordering of the fragments, malformed groups",
  "The tests merge a few two- and three-fragment messages; batch boundaries and malformed announcements combine without bound.",
  ["mrp/src/stream.rs", "mrp/src/merge_buffer.rs"],
  [("fragmenting sender", "mrp/src/stream.rs try_send_fragmented"), ("reassembly", "mrp/src/stream.rs merge_packets"),
   ("merge buffer", "mrp/src/merge_buffer.rs")])

p("R05", "MRP retransmits what is due and acknowledges what it owes",
  "A resend pass retransmits, in order and unchanged, exactly the unacknowledged packets that are due, stops at the first transport "
  "failure, and moves only the deadlines of what it sent. An acknowledgement is owed after any delivery or duplicate and "
  "reports the next expected number. It stays owed if sending it fails, and none is sent when none is owed.",
  "histories inputs fault_sequences", "every set of deadlines and retry counts, every point at which the transport fails",
  "The tests resend one or two packets with a working transport; due sets, retry counts up to the type's limit and failures in "
  "the middle of a pass are not sampled.",
  ["mrp/src/stream.rs"],
  [("resend pass", "mrp/src/stream.rs try_resend"), ("acknowledgement duty", "mrp/src/stream.rs try_send_ack")])

# ------------------------------------------------------------------ frame encryption
CR = "src/rust/src/core/crypto.rs"
p("F01", "Frame encryption has one exact format and always round-trips",
  "Every media frame is encrypted with AES-256-CTR and authenticated with 16 bytes of HMAC-SHA256 over counter, length and "
  "ciphertext, under keys derived by HKDF from the sender's current secret, for every length and content. "
  "A receiver that was given that sender's secret, at its current key step or an earlier one, recovers exactly the plaintext.",
  "inputs histories", "every plaintext, secret, frame counter and number of key steps",
  "The tests round-trip a few short strings; the format must be exact for every length, counter and key step, because the peer "
  "is another build.",
  [CR, "src/rust/src/common/slice.rs"],
  [("encrypt", CR + " Context::encrypt"), ("decrypt", CR + " Context::decrypt, decrypt_internal"),
   ("keys from secret", CR + " SenderState::new"), ("frame counter as IV", CR + " convert_frame_counter_to_iv")])

p("F02", "A frame opens only if authentic; refusing one changes nothing",
  "A frame is accepted only if its authentication code verifies, for exactly its counter, length and ciphertext, under a key "
  "derived from a secret that was installed for the claimed sender. A refused frame leaves the caller's buffer and all key "
  "material exactly as they were. Only the error statistics of that sender change.",
  "inputs histories", "every frame an attacker may send, after every history of keys and frames",
  "The tests corrupt one byte of one frame; authenticity is a claim about every altered, replayed, relabelled or forged frame.",
  [CR], [("authentication before use", CR + " check_mac, Context::decrypt"),
         ("tentative key steps", CR + " ReceiverState::try_advance_ratchet")],
  [("receiver key states", "secrets installed per sender", CR + " ReceiverState")])

p("F03", "The sender never uses a frame counter twice",
  "Frames encrypted by one sender carry the counters 1, 2, 3 and so on, without a gap or a repetition, across every change of "
  "the sending key. Advancing the key moves it one step and its step number by one modulo 256. Replacing the key restarts "
  "the step number at 0 and does not restart the frame counter.",
  "histories", "every interleaving of encryption, key advance and key replacement",
  "The tests encrypt a handful of frames under one or two keys; reuse of a counter under one key would reveal plaintext and can "
  "only be excluded for all histories.",
  [CR], [("frame counter", CR + " Context::encrypt"), ("key advance", CR + " Context::advance_send_ratchet"),
         ("key replacement", CR + " Context::reset_send_ratchet")])

p("F04", "Each sender's five newest secrets are kept, independently",
  "After any history of installed secrets, frames of a sender can be opened with exactly the five secrets most recently "
  "installed for that sender. Installing a secret drops only the oldest beyond five and disturbs no other. Secrets and "
  "frames of one sender never affect what can be opened for another.",
  "histories", "every sequence of installed secrets and arriving frames over all senders",
  "The tests install up to a few secrets for one sender.",
  [CR], [("retained secrets", CR + " Context::add_receive_secret"), ("lookup by sender", CR + " get_mut_ref_state_vec_by_id")])

p("F05", "Late and early frames open in any arrival order",
  "Once a receiver has a sender's secret, every authentic frame that is newer than the newest opened so far, or at most 300 "
  "frames and 5 key steps older than it, opens, whatever order frames arrive in. This holds as long as the sender's key is "
  "fewer than 250 steps ahead. Old key material is kept for at most 5 key steps back.",
  "histories inputs", "every order, loss and delay of frames across every pattern of key advances",
  "The tests deliver a few frames late in fixed patterns; which secret is remembered depends on the entire arrival order.",
  [CR], [("reach back and forward", CR + " ReceiverState::try_advance_ratchet"),
         ("bounded retention", CR + " ReceiverState::limit_ooo")],
  [("old secret", "secret from which late frames are reached", CR + " ReceiverState.old_secret")])

p("F06", "Encrypted frames carry their footer exactly, within the given buffers",
  "An outgoing frame is the encrypted payload followed by one byte of key step, the frame counter as four big-endian bytes and "
  "the 16-byte authentication code; exactly 21 bytes are added and nothing else in the buffer is touched, and a buffer that is "
  "too small or a counter beyond 32 bits is refused. An incoming frame is split the same way and checked with exactly those "
  "numbers; a short frame or small buffer is refused without a panic. What one side frames, the other opens to the same payload.",
  "inputs", "every payload and frame of any length, every buffer size, every counter",
  "The tests send a few frames of ordinary size; buffers one byte short, counters at 32 bits and damaged or truncated frames at "
  "every length are not sampled.",
  ["src/rust/src/core/group_call.rs", "src/rust/src/core/crypto.rs"],
  [("footer", "core/group_call.rs encrypt / decrypt"), ("bounded writer and reader", "core/group_call.rs Writer, Reader"),
   ("buffer sizes", "core/group_call.rs get_ciphertext_buffer_size / get_plaintext_buffer_size")])

p("F07", "Decryption error reports are exact",
  "The statistics of a sender count exactly the frames of that sender refused since they were last reported, with the times of "
  "the first and the last. A report returns exactly the senders without an error since the previous report was asked for, "
  "and forgets them. All other statistics are unchanged by a report, and no report is made when no sender qualifies.",
  "histories", "every history of errors and reports, and every behaviour of the clock",
  "The tests create one or two errors and one report.",
  [CR], [("count", CR + " DecryptionErrorStats::increment"), ("report", CR + " DecryptionErrorTracker::get_report")])

# ------------------------------------------------------------------ call link keys
B16, RK = "src/rust/src/lite/call_links/base16.rs", "src/rust/src/lite/call_links/root_key.rs"
p("K01", "The text form of binary keys is an exact one-to-one code",
  "Every byte string is printed as two letters per byte from a fixed 16-letter alphabet with a dash between groups of the "
  "requested size, and that text reads back as exactly those bytes. A text is accepted only if it is exactly the text of some "
  "bytes under the group sizes asked for; anything else, of any characters, is refused without a panic.",
  "inputs", "every byte string, every text (also not ASCII), all group sizes",
  "The tests decode a dozen texts; that no malformed text is taken for a key is a claim about every text.",
  [B16], [("letters and dashes", B16 + " Display::fmt"), ("strict reading", B16 + " parse_with_separators"),
          ("letter table", B16 + " Base16Table::new")])

p("K02", "A call link key has one canonical byte form and one text per version",
  "Bytes are accepted as a call link key exactly if they have the length, version marker and digit variety of one of the two "
  "versions, and keep their exact value; each key has one text, and a text is accepted exactly if it is the text of such a key. "
  "A newly generated key is never usable before the server answered, and the answer turns it into exactly the same secret "
  "with the server's epoch, or of the old version when there is none. The room identifier depends on the secret alone, and "
  "only a usable key announces an epoch.",
  "inputs histories", "all byte strings and texts, all server answers, every output of the random generator",
  "Nothing in the baseline tests touches these keys, and equality of every accepted text with its canonical form cannot be "
  "sampled.",
  [RK, B16], [("versions", RK + " TryFrom for CallLinkRootKeyV0/V1, CallLinkRootKey"),
              ("server answer", RK + " process_server_response"), ("generation", RK + " generate, has_repeated_chunk"),
              ("room id and headers", RK + " derive_room_id, prepare_http_headers")])

p("K03", "Call link names decrypt to exactly what was encrypted",
  "A name encrypted with a call link key opens, for every holder of the same key, to exactly the name; it is padded so that "
  "its length is known only to the nearest block, and every encryption draws its own nonce. The epoch of the key plays no part. "
  "A box that does not authenticate, or holds no end marker, is refused.",
  "inputs", "all names, keys, nonces and all (altered, cut, forged) boxes",
  "Nothing in the baseline tests encrypts a name; names ending in marker or padding bytes are the classic failure and one of "
  "infinitely many inputs.",
  [RK], [("padding and sealing", RK + " encrypt"), ("opening", RK + " decrypt"), ("cipher key", RK + " make_cipher")])

# ------------------------------------------------------------------ sizes, copies, key agreement
UN, SL, GC, CN = ("src/rust/src/common/units.rs", "src/rust/src/common/slice.rs", "src/rust/src/core/group_call.rs",
                  "src/rust/src/core/connection.rs")
p("U01", "Data sizes and rates convert exactly",
  "A data size or rate made from bits, bytes or decimal multiples of them is exactly that many bits, and reading it in any "
  "unit gives the number of whole units. Limiting a rate by an optional limit gives the smaller of the two.",
  "inputs", "every size and rate whose bits fit 64 bits",
  "The baseline tests only check the limit of a call; unit mistakes show at particular values.",
  [UN], [("multiples", UN + " from_kilobytes and the other constructors"), ("limit", UN + " min_opt")])

p("U03", "Copies between buffers are complete or refused",
  "Copying between two buffers of equal length copies everything; with different lengths it is refused, leaves the "
  "destination untouched and never panics. Copying into the front of a longer fixed-size buffer leaves the rest of it alone.",
  "inputs", "all contents and lengths, arrays, slices and vectors",
  "No baseline test covers these copies; they sit under every key and packet buffer.",
  [SL], [("checked copy", SL + " safe_copy_from_slice"), ("front copy", SL + " safe_copy_array")])

p("C06", "Both ends of a direct call derive the same media keys",
  "From one's own secret, the other's public key and the two identity keys, caller first, each end derives the offer and answer "
  "keys and salts as the four consecutive parts of one key derivation of the shared secret, bound to both identities. "
  "A public key of another length than 32 bytes, or one that contributes nothing to the secret, is refused.",
  "inputs", "all secrets, public keys of any length and value, and identities",
  "No baseline test negotiates keys; agreement must hold for every pair of keys and identities.",
  [CN, "src/rust/src/webrtc/sdp_observer.rs"],
  [("derivation", CN + " negotiate_srtp_keys"), ("sizes", "src/rust/src/webrtc/sdp_observer.rs SrtpCryptoSuite")])

p("G02", "A group call's transport keys come from one fresh key exchange",
  "The client negotiates at most once per secret: the first key the server answers with turns the shared secret, bound to the "
  "call's context, into client key and salt and server key and salt, four consecutive parts of the derived material. "
  "A server key that contributes nothing is refused for good, and later answers change nothing.",
  "histories inputs", "all secrets, server keys and contexts, and every sequence of answers",
  "Nothing in the baseline tests negotiates with a server; second and degenerate answers are not sampled.",
  [GC, "src/rust/src/webrtc/sdp_observer.rs"],
  [("exchange", GC + " DheState"), ("parts", GC + " SrtpKeys::from_master_key_material")],
  [("negotiation", "the secret, or the keys it became", GC + " DheState")])

# ------------------------------------------------------------------ group calls
p("G03", "A group call never sends faster than its size and mode allow",
  "The limits on what a client sends are a fixed function of how many other devices are in the call and whether it shares its "
  "screen, unless an override is in force. Whenever the set of devices or the screen sharing changes, the limits in force are "
  "exactly those, each change is handed to the connection and announced once, and a client alone in the call stops capturing and "
  "sending.",
  "histories inputs", "every history of joins, leaves, sharing and overrides",
  "The baseline tests do not run group calls; the limits must hold after every history.",
  [GC, UN], [("table", GC + " compute_send_rates"), ("change", GC + " set_send_rates_inner"), ("peek", GC + " set_peek_result_inner")],
  [("send rates", "limits in force", GC + " State.send_rates")])

p("G05", "Whoever left a group call cannot read on, who joined cannot read back",
  "When a user leaves, a freshly drawn send key is given to exactly the users still there and used five seconds later; "
  "departures meanwhile cause one further rotation afterwards. When devices join, the send key is stepped forward, and the "
  "result, along with a fresh key on its way, is given to exactly the users who added devices. Every user is "
  "addressed once per hand-out and keys go to nobody else.",
  "histories schedules", "every history of arrivals, departures, timers and resend requests",
  "The baseline tests do not run group calls; who must and must not hold a key depends on the whole history.",
  [GC], [("rotation", GC + " rotate_media_send_key_and_send_to_users_not_removed"),
         ("step on join", GC + " advance_media_send_key_and_send_to_users_with_added_devices"),
         ("hand-out", GC + " send_media_send_key_to_users_over_signaling"), ("trigger", GC + " set_peek_result_inner")],
  [("rotation", "key announced but not yet in use", GC + " media_send_key_rotation_state")])

p("G06", "A received media key counts only for its sender's own device",
  "A key received from a user is used only for a device the call lists under that user; for another user's device it is "
  "dropped. A key for a device not listed yet is kept and looked at again whenever the list of devices is updated. The first key "
  "of a device is reported once.",
  "histories", "every interleaving of received keys and device lists",
  "The baseline tests do not run group calls; key and list arrive over different channels in any order.",
  [GC], [("acceptance", GC + " add_media_receive_key_or_store_for_later"), ("retry", GC + " set_peek_result_inner")],
  [("pending keys", "keys received ahead of their device", GC + " State.pending_media_receive_keys")])

p("G07", "The devices shown in a group call follow the server's list exactly",
  "After each server list, the devices shown are the listed ones of known users except one's own, in the listed order; a device "
  "that stays keeps everything known about it, one that changes user counts as new. Changes of users or of pending users are "
  "announced, and changes of the set of devices once each. A device keeps its receiver as long as it stays, each device has one, "
  "and receivers are reused.",
  "histories", "every sequence of server lists, including duplicates, unknown users, pending devices and failures",
  "The baseline tests do not run group calls.",
  [GC], [("update", GC + " set_peek_result_inner"), ("new devices", GC + " RemoteDeviceState::new")],
  [("devices", "what is known of each remote device", GC + " State.remote_devices"),
   ("receivers", "which device is received where", GC + " State.remote_transceiver_demux_ids")])

CF, CO = "src/rust/src/core/connection_fsm.rs", "src/rust/src/common/mod.rs"
p("G01", "A group call is joined and left in order, and leaves nothing behind",
  "A device joins only from outside and only when no other call occupies it, with a fresh key; it becomes a member only by the "
  "server's answer to that request. Leaving, being removed, or failing at any step turns media off, tells the others and the server (if "
  "it was a member or waiting), frees the device for other calls, stops the timers, and closes the connection once.",
  "histories schedules", "every history of app calls, server answers, removals and failures, and every interleaving with delayed tasks",
  "The baseline tests do not run group calls; a leak shows only after a particular order of failure, leaving and joining again.",
  [GC], [("join", GC + " join"), ("answer", GC + " on_sfu_client_join_success"), ("leave", GC + " leave_inner"),
         ("end", GC + " end")], [("membership", "where in joining the device is", GC + " State.join_state")])

p("G04", "What is shown of other participants is the newest they sent, and only theirs",
  "Mute, video, presenting and sharing states of a device change only by a newer report of that device; older or repeated ones "
  "change and report nothing. A leave notice counts once and only from the device's own user; a mute shows as requested only if "
  "the named device asked for it. Raised hands, speaker and forwarded video follow the server's newest message.",
  "histories", "every interleaving of reports, requests, server messages and device lists, in any order of their timestamps",
  "The baseline tests do not run group calls; reports arrive over unordered channels, and each rule needs its own history.",
  [GC], [("reports", GC + " handle_heartbeat_received"), ("leave notice", GC + " handle_leaving_received"),
         ("hands", GC + " handle_raised_hands"), ("speaker", GC + " handle_speaker_received")])

p("G08", "A group call rings at most once, and only for its creator",
  "The group is rung only by the user who created the call, only when asked to, and at most once; the ring carries the call's own number, "
  "the same for every device. It is called off when its sender leaves before others joined. Who joins after "
  "being rung tells the user's own other devices so, with the number of that ring.",
  "histories", "every order of ring requests, answers of the server, device lists, joining and leaving",
  "The baseline tests do not run group calls; wrong rings show only for particular orders of joining and arriving.",
  [GC], [("ring", GC + " ring_inner"), ("permission", GC + " on_sfu_client_join_success"), ("number", GC + " RingId::from_era_id"),
         ("cancel", GC + " cancel_full_group_ring_if_needed")])

p("G09", "A group call's own state and packets go out once each, in number order",
  "What the user sets (mute, video, presenting, sharing, a raised hand, a reaction) is what the next packet says, along with all "
  "that was set before, and who asked for a mute is kept until it ends. Every data packet of a stream has the next number after the "
  "last one sent; nothing is sent to others before the device is a member, and a packet not sent uses up no number.",
  "histories", "every history of settings, joins, leaves and failing sends",
  "The baseline tests do not run group calls; a reused or skipped number makes receivers drop a later update.",
  [GC], [("packets", GC + " unreliable_send_data_inner"), ("state", GC + " send_heartbeat"), ("mute", GC + " set_outgoing_audio_muted_inner")])

p("G10", "The list of devices is asked for when due, and not twice at once",
  "The server is asked for the call's devices at once when members change, a proof arrives that was waited for, a device says it "
  "leaves, or the device joins; if a request is under way it is asked again after the answer, and never twice at the same time unless "
  "five seconds went by without an answer.",
  "histories schedules", "every interleaving of triggers, answers, failures and the passing of time",
  "The baseline tests do not run group calls; a lost request shows only when triggers meet a request under way.",
  [GC], [("when due", GC + " maybe_request_remote_devices"), ("members", GC + " set_group_members"),
         ("proof", GC + " set_membership_proof"), ("answer", GC + " set_peek_result_inner")])

p("C05", "Media flows only once connected and accepted; nothing revives an ended end",
  "Every ICE event, acceptance, hangup and status moves a connection of a direct call from its current state to exactly one "
  "next state and is passed on exactly in the states in which it means something. A connection counts as in the call only once it is "
  "both connected and accepted, whichever came first, and what the other side said before then takes effect at that moment. "
  "A connection that has ended reacts to nothing but the wish to say goodbye.",
  "histories schedules", "every state and every event, in every order",
  "The baseline tests do not run connections; the table of states and events must hold in every history.",
  [CF, CN, CO], [("dispatch", CF + " ConnectionStateMachine::handle_event"),
                 ("connected and accepted", CF + " handle_connected_and_accepted_for_the_first_time"),
                 ("what a state allows", CO + " ConnectionState, CallState predicates")],
  [("connection state", "connecting, connected, accepted, reconnecting, ended", CN + " Connection.state")])

p("C07", "A direct call's send rate is the least of all limits in force",
  "The rate given to the media engine is the least of what the local mode wants, what the other side last asked for and 1 Mbit/s "
  "when either side is relayed, and never below 30 kbit/s. It is given anew exactly when one of these changes, and a change of the "
  "local mode is also told to the other side, once.",
  "histories inputs", "every history of modes, requests and routes, every rate",
  "The baseline tests do not touch the bandwidth limits; the limit must be right after every history.",
  [CN, UN, CO], [("least limit", CN + " BandwidthController::max_send_rate"), ("change", CN + " update_bandwidth_controller"),
             ("local mode", CN + " update_data_mode")],
  [("limits", "mode, remote limit, route", CN + " BandwidthController")])

p("C08", "Of the statuses two ends exchange, only the newest counts",
  "Each message one end of a direct call sends carries everything it said so far under the next sequence and packet number. "
  "The receiving end takes a message only from the agreed stream, not older than one already taken and within the size "
  "limit; acceptance, hangup and status act only when they name this call, and a status only when numbered above the last one "
  "taken. Every kind of hangup arrives as the kind that was sent, and unknown kinds as an ordinary one.",
  "histories inputs", "every history of messages sent and received, any content, order, loss and repetition",
  "The baseline tests exchange no such messages; no stale or foreign message may ever act.",
  [CN, CF, "src/rust/src/core/signaling.rs"],
  [("everything said so far", CN + " update_and_send_rtp_data_message"), ("taking a packet", CN + " handle_rtp_received"),
   ("what it says", CN + " inject_received_via_rtp_data"), ("newest status", CF + " handle_received_sender_status_via_rtp_data"),
   ("hangup kinds", "src/rust/src/core/signaling.rs Hangup")],
  [("numbers", "last sent and received", CN + " Connection")])

# ---------------------------------------------------------------------------------------------
TECH = "contract-based deductive verification of the lifted source (Verus)"


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            a = {"files": q["files"], "mechanism": [{"name": n, "where": w} for n, w in q["mechanism"]]}
            if q["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in q["state"]]
            if q["observe"]:
                a["observe_at"] = list(q["observe"])
            assert len(q["title"]) <= 80, q["id"]
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
                                "quantifier": {"over": q["over"], "text": q["text"]},
                                "why_tests_cant": q["why"], "anchors": a}, ensure_ascii=False) + "\n")
            cfg = props.PROPS.get(q["id"])
            if cfg:
                assert not q["na"], q["id"]
                cmd = f"python3 tools/check.py {q['id']}"
                tech = cfg.get("technique")
                if not tech:
                    tech = TECH if cfg.get("verus") else "bounded"
                    if cfg.get("kani"):
                        tech = (TECH + " and " if cfg.get("verus") else "") + \
                            "function contracts proved by Kani (CBMC) over the full input domain"
                lvl = cfg.get("level", "proof")
                note = q["note"] or ""
                base = ("Every obligation generated from /repo's current source is discharged on every run, for all inputs and "
                        "iterations; the same contracts run as executable checks on the compiled code to replay a failed "
                        "obligation (bounded, not counted as proved). Trusted: the extraction, contracts on std and on "
                        "dependencies as listed in the evidence file, rustc, Verus/Z3.")
                if cfg.get("base_note"):
                    base = cfg["base_note"]
                checks.append({"property": q["id"], "quick_cmd": cmd + " --tier quick",
                               "thorough_cmd": cmd + " --tier thorough", "technique": tech, "level": lvl,
                               "level_note": (base + " " + note).strip(),
                               "evidence_file": f"evidence/{q['id']}.json"})
            else:
                na.append({"property": q["id"], "reason": q["na"] or "in progress: no check yet"})
    m = {"version": 1, "setup_cmd": "bash tools/setup.sh", "checks": checks, "not_applicable": na,
         "notes": "See DESIGN.md. Contracts: verus/*.vt, verus/*.inc; extraction: tools/vgen.py, tools/rsx.py; "
                  "driver: tools/check.py. No hooks in /repo are needed."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    print(len(checks), "claimed,", len(na), "not applicable")


if __name__ == "__main__":
    main()
