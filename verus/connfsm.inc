// ---- what a connection does with each event (core/connection_fsm.rs) ----------------------------
//% source src/rust/src/core/connection_fsm.rs
// work for the two threads of a state machine: its callers' closures, lifted below
pub enum ConnTask {
    Notify(ConnectionObserverEvent),
    Accepted,
    Hangup(Hangup),
    Status(SenderStatus),
    Mode(DataMode),
    Candidates(Vec<signaling::IceCandidate>),
    Error(VxError),
    Media(MediaStream),
}

pub struct Stopper {
    pub stopped: bool,
}

impl Stopper {
    fn has_been_stopped(&self) -> (r: bool)
        ensures
            r == self.stopped,
    {
        self.stopped
    }
}

pub struct Actor {
    pub stop: Stopper,
    pub queue: Ghost<Seq<ConnTask>>,
}

impl Actor {
    fn stopper(&self) -> (r: &Stopper)
        ensures
            *r == self.stop,
    {
        &self.stop
    }

    #[verifier::external_body]
    fn send(&mut self, t: ConnTask)
        ensures
            *final(self) == (Actor { queue: Ghost(old(self).queue@.push(t)), ..*old(self) }),
    {
        unimplemented!()
    }

    pub open spec fn with(self, t: ConnTask) -> Actor {
        if self.stop.stopped { self } else { Actor { queue: Ghost(self.queue@.push(t)), ..self } }
    }
}

pub struct ConnectionStateMachine {
    pub worker_thread: Actor,
    pub notify_thread: Actor,
    pub last_remote_sender_status: Option<(u64, SenderStatus)>,
    pub last_remote_receiver_status: Option<(u64, DataRate)>,
}

fn try_scoped<T>(r: Result<T>) -> (q: Result<T>)
    ensures
        q == r,
{
    r
}

// the call still takes events, and the media layer takes rates
pub open spec fn whole(c: Connection) -> bool {
    &&& c.open@
    &&& c.webrtc.peer_connection matches Some(p) && p.works@
}

impl Connection {
    pub open spec fn telling(self, e: ConnectionObserverEvent) -> Connection {
        Connection { told: Ghost(self.told@.push(e)), ..self }
    }

    pub open spec fn doing(self, d: Deed) -> Connection {
        Connection { did: Ghost(self.did@.push(d)), ..self }
    }

    // a new state is told to the call
    pub open spec fn entering(self, s: ConnectionState) -> Connection {
        if self.state == s { self } else {
            Connection { state: s, told: Ghost(self.told@.push(ConnectionObserverEvent::StateChanged(s))), ..self }
        }
    }
}

impl ConnectionStateMachine {
    pub open spec fn working(self, t: ConnTask) -> ConnectionStateMachine {
        ConnectionStateMachine { worker_thread: self.worker_thread.with(t), ..self }
    }

    pub open spec fn notifying(self, e: ConnectionObserverEvent) -> ConnectionStateMachine {
        ConnectionStateMachine { notify_thread: self.notify_thread.with(ConnTask::Notify(e)), ..self }
    }
}

// what is known of the other side takes effect: first what it can receive, then what it sends
pub open spec fn limit_heard(before: Connection, after: Connection, m: Option<(u64, DataRate)>) -> bool {
    match m {
        Some(x) => limits_changed(before, after, VxUpdate::Remote(x.1)),
        None => after == before,
    }
}

pub open spec fn status_heard(before: Connection, m: Option<(u64, SenderStatus)>) -> Connection {
    match m {
        Some(x) => before.telling(ConnectionObserverEvent::RemoteSenderStatusChanged(x.1)),
        None => before,
    }
}

pub open spec fn talking(
    fsm: ConnectionStateMachine,
    after: ConnectionStateMachine,
    c: Connection,
    c_after: Connection,
) -> bool {
    &&& exists|m: Connection| #[trigger]
        limit_heard(c.entering(ConnectionState::ConnectedAndAccepted), m, fsm.last_remote_receiver_status) && c_after
            == status_heard(m, fsm.last_remote_sender_status)
    &&& after == (if c.direction is Incoming { fsm.working(ConnTask::Accepted) } else { fsm })
}

// whether something numbered so is news after what was last heard
pub open spec fn news<X>(last: Option<(u64, X)>, n: u64) -> bool {
    match last {
        Some(l) => n > l.0,
        None => true,
    }
}

pub open spec fn differs<X>(last: Option<(u64, X)>, x: X) -> bool {
    match last {
        Some(l) => l.1 != x,
        None => true,
    }
}

pub open spec fn handled(
    fsm: ConnectionStateMachine,
    after: ConnectionStateMachine,
    c: Connection,
    c_after: Connection,
    state: ConnectionState,
    event: ConnectionEvent,
) -> bool {
    let ignored = after == fsm && c_after == c;
    if conn_ended(state) && !(event is SendHangupViaRtpData) {
        ignored
    } else {
        match event {
            ConnectionEvent::SendHangupViaRtpData(h) => c_after == c && after == (if state is NotYetStarted { fsm } else {
                fsm.working(ConnTask::Hangup(h))
            }),
            ConnectionEvent::ReceivedHangup(id, h) => c_after == c && after == (if id == c.call_id && conn_up(state) {
                fsm.notifying(ConnectionObserverEvent::ReceivedHangup(h))
            } else {
                fsm
            }),
            ConnectionEvent::Accept => if state is ConnectingBeforeAccepted || state is ConnectedBeforeAccepted
                || state is ReconnectingAfterAccepted {
                talking(fsm, after, c, c_after)
            } else {
                ignored
            },
            ConnectionEvent::ReceivedAcceptedViaRtpData(id) => if id == c.call_id && state is ConnectingBeforeAccepted {
                after == fsm && c_after == c.entering(ConnectionState::ConnectingAfterAccepted)
            } else if id == c.call_id && state is ConnectedBeforeAccepted {
                talking(fsm, after, c, c_after)
            } else {
                ignored
            },
            ConnectionEvent::ReceivedSenderStatusViaRtpData(id, s, n) => if id == c.call_id && news(
                fsm.last_remote_sender_status,
                n,
            ) {
                &&& after == (ConnectionStateMachine { last_remote_sender_status: Some((n, s)), ..fsm })
                &&& c_after == (if conn_in_call(state) && differs(fsm.last_remote_sender_status, s) {
                    c.telling(ConnectionObserverEvent::RemoteSenderStatusChanged(s))
                } else {
                    c
                })
            } else {
                ignored
            },
            ConnectionEvent::ReceivedReceiverStatusViaRtpData(id, m, n) => if id == c.call_id && news(
                fsm.last_remote_receiver_status,
                n,
            ) {
                &&& after == (ConnectionStateMachine { last_remote_receiver_status: Some((n, m)), ..fsm })
                &&& if conn_in_call(state) && differs(fsm.last_remote_receiver_status, m) {
                    limits_changed(c, c_after, VxUpdate::Remote(m))
                } else {
                    c_after == c
                }
            } else {
                ignored
            },
            ConnectionEvent::ReceivedIce(ice) => after == fsm && c_after == (if conn_up(state) {
                c.doing(Deed::Ice(ice))
            } else {
                c
            }),
            ConnectionEvent::UpdateSenderStatus(s) => c_after == c && after == (if state is ConnectedBeforeAccepted
                || conn_in_call(state) {
                fsm.working(ConnTask::Status(s))
            } else {
                fsm
            }),
            ConnectionEvent::UpdateDataMode(m) => c_after == c && after == (if conn_up(state) {
                fsm.working(ConnTask::Mode(m))
            } else {
                fsm
            }),
            ConnectionEvent::LocalIceCandidates(l) => c_after == c && after == (if !(state is NotYetStarted) {
                fsm.working(ConnTask::Candidates(l))
            } else {
                fsm
            }),
            ConnectionEvent::IceConnected => {
                let f = fsm.notifying(ConnectionObserverEvent::IceConnected);
                if state is ConnectingBeforeAccepted {
                    after == f && c_after == c.entering(ConnectionState::ConnectedBeforeAccepted)
                } else if state is ConnectingAfterAccepted {
                    talking(f, after, c, c_after)
                } else if state is ReconnectingAfterAccepted {
                    after == f && c_after == c.entering(ConnectionState::ConnectedAndAccepted)
                } else {
                    after == f && c_after == c
                }
            },
            ConnectionEvent::IceFailed => after == fsm && c_after == (if conn_up(state) {
                c.entering(ConnectionState::IceFailed)
            } else {
                c
            }),
            ConnectionEvent::IceDisconnected => {
                &&& after == fsm.notifying(ConnectionObserverEvent::IceDisconnected)
                &&& c_after == (if state is ConnectedBeforeAccepted {
                    c.entering(ConnectionState::ConnectingBeforeAccepted)
                } else if state is ConnectedAndAccepted {
                    c.entering(ConnectionState::ReconnectingAfterAccepted)
                } else {
                    c
                })
            },
            ConnectionEvent::IceNetworkRouteChanged(n) => {
                &&& after == fsm.notifying(ConnectionObserverEvent::IceNetworkRouteChanged(n))
                &&& limits_changed(c, c_after, VxUpdate::Route(n))
            },
            ConnectionEvent::InternalError(e) => c_after == c && after == (ConnectionStateMachine {
                notify_thread: fsm.notify_thread.with(ConnTask::Error(e)),
                ..fsm
            }),
            ConnectionEvent::ReceivedIncomingMedia(s) => c_after == c && after == (if conn_up(state) {
                fsm.working(ConnTask::Media(s))
            } else {
                fsm
            }),
            ConnectionEvent::Synchronize(_) | ConnectionEvent::Terminate => true,
        }
    }
}

// what failed comes back as an event of the connection's own
pub open spec fn reported(mid: Connection, after: Connection) -> bool {
    after == mid || exists|e: VxError| after == #[trigger] mid.with(ConnectionEvent::InternalError(e))
}

impl ConnectionStateMachine {
    //% fn ConnectionStateMachine::worker_spawn
        ensures
            *final(self) == (ConnectionStateMachine { worker_thread: old(self).worker_thread.with(f), ..*old(self) }),
    //% sig fn worker_spawn(&mut self, f: ConnTask)
    //% closure 0
    $REPLACE f
    //% end

    //% fn ConnectionStateMachine::notify_spawn
        ensures
            *final(self) == (ConnectionStateMachine { notify_thread: old(self).notify_thread.with(f), ..*old(self) }),
    //% sig fn notify_spawn(&mut self, f: ConnTask)
    //% closure 0
    $REPLACE f
    //% end

    //% fn ConnectionStateMachine::notify_observer
        ensures
            *final(connection) == *old(connection),
            *final(self) == old(self).notifying(event),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Notify(event)
    //% end

    //% fn ConnectionStateMachine::send_accepted_via_rtp_data
        ensures
            *final(connection) == *old(connection),
            *final(self) == old(self).working(ConnTask::Accepted),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Accepted
    //% end

    //% fn ConnectionStateMachine::unexpected_state
    //% end

    //% fn ConnectionStateMachine::handle_remote_receiver_status_changed
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            limits_changed(*old(connection), *final(connection), VxUpdate::Remote(max_bitrate)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_remote_sender_status_changed
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            *final(connection) == old(connection).telling(ConnectionObserverEvent::RemoteSenderStatusChanged(status)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_connected_and_accepted_for_the_first_time
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            talking(*old(self), *final(self), *old(connection), *final(connection)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub &connection\b ==> connection
    //% before if let Some\(\(_, status\)\)
    let ghost m = *connection;
    proof {
        assert(limit_heard(old(connection).entering(ConnectionState::ConnectedAndAccepted), m, old(self).last_remote_receiver_status));
    }
    //% end

    //% fn ConnectionStateMachine::handle_event
        requires
            whole(*old(connection)),
            !(event is Synchronize || event is Terminate),
        ensures
            r is Ok,
            handled(*old(self), *final(self), *old(connection), *final(connection), state, event),
            whole(*final(connection)),
    //% attr verifier::rlimit(200)
    //% attr verifier::spinoff_prover
    //% head
    hide(limits_changed);
    hide(talking);
    hide(ConnectionStateMachine::working);
    hide(ConnectionStateMachine::notifying);
    hide(Connection::entering);
    hide(Connection::telling);
    hide(Connection::doing);
    hide(Actor::with);
    hide(whole);
    hide(news);
    hide(differs);
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    #[verifier::external_body]
    fn handle_terminate(&mut self, connection: &mut Connection) -> (r: Result<()>)
        requires
            false,
    {
        unimplemented!()
    }

    #[verifier::external_body]
    fn handle_synchronize(&mut self, sync: Arc<(Mutex<bool>, Condvar)>) -> (r: Result<()>)
        requires
            false,
    {
        unimplemented!()
    }

    //% fn ConnectionStateMachine::handle_received_hangup
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedHangup(call_id, hangup)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_received_accepted_via_rtp_data
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedAcceptedViaRtpData(call_id)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_received_sender_status_via_rtp_data
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedSenderStatusViaRtpData(call_id, status, seqnum)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub &connection\b ==> connection
    //% end

    //% fn ConnectionStateMachine::handle_received_receiver_status_via_rtp_data
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedReceiverStatusViaRtpData(call_id, max_bitrate, seqnum)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub &connection\b ==> connection
    //% end

    //% fn ConnectionStateMachine::handle_received_ice
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedIce(ice)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_accept
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::Accept),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_send_hangup_via_rtp_data
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::SendHangupViaRtpData(hangup)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Hangup(hangup)
    //% end

    //% fn ConnectionStateMachine::handle_update_sender_status
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::UpdateSenderStatus(sender_status)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Status(sender_status)
    //% end

    //% fn ConnectionStateMachine::handle_update_data_mode
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::UpdateDataMode(data_mode)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Mode(data_mode)
    //% end

    //% fn ConnectionStateMachine::handle_local_ice_candidates
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::LocalIceCandidates(candidates)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Candidates(candidates)
    //% end

    //% fn ConnectionStateMachine::handle_ice_connected
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::IceConnected),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub connection\.clone\(\) ==> connection
    //% end

    //% fn ConnectionStateMachine::handle_ice_failed
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::IceFailed),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% end

    //% fn ConnectionStateMachine::handle_ice_disconnected
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::IceDisconnected),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub connection\.clone\(\) ==> connection
    //% end

    //% fn ConnectionStateMachine::handle_ice_network_route_changed
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            *final(self) == old(self).notifying(ConnectionObserverEvent::IceNetworkRouteChanged(network_route)),
            limits_changed(*old(connection), *final(connection), VxUpdate::Route(network_route)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% sub crate::webrtc::peer_connection_observer:: ==>
    //% end

    //% fn ConnectionStateMachine::handle_internal_error
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            *final(connection) == *old(connection),
            *final(self) == (ConnectionStateMachine {
                notify_thread: old(self).notify_thread.with(ConnTask::Error(error)),
                ..*old(self)
            }),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Error(error)
    //% end

    //% fn ConnectionStateMachine::handle_received_incoming_media
        requires
            whole(*old(connection)),
        ensures
            r is Ok,
            !conn_ended(state) ==> handled(*old(self), *final(self), *old(connection), *final(connection), state, ConnectionEvent::ReceivedIncomingMedia(stream)),
            whole(*final(connection)),
    //% sub? (?:mut )?connection: Connection<T> ==> connection: &mut Connection
    //% sub? connection: &Connection<T> ==> connection: &mut Connection
    //% closure 0
    $REPLACE ConnTask::Media(stream)
    //% end

}

//% fn ConnectionStateMachine::notify_observer#1 as do_notify_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> *final(connection) == old(connection).telling(event),
//% sig fn do_notify_now(connection: &mut Connection, event: ConnectionObserverEvent) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::notify_observer#0 as do_notify
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> *final(connection) == old(connection).telling(event),
//% sig fn do_notify(connection: &mut Connection, event: ConnectionObserverEvent)
//% closure 0
$REPLACE do_notify_now(connection, event)
//% end

//% fn ConnectionStateMachine::send_accepted_via_rtp_data#1 as do_accepted_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> says(*old(connection), *final(connection), populated(VxPopulate::Accepted(RtpAccepted { id: Some(old(connection).call_id.id) }), old(connection).accumulated_rtp_data_message)),
//% sig fn do_accepted_now(connection: &mut Connection) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::send_accepted_via_rtp_data#0 as do_accepted
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> says(*old(connection), *final(connection), populated(VxPopulate::Accepted(RtpAccepted { id: Some(old(connection).call_id.id) }), old(connection).accumulated_rtp_data_message)),
//% sig fn do_accepted(connection: &mut Connection)
//% closure 0
$REPLACE do_accepted_now(connection)
//% end

//% fn ConnectionStateMachine::handle_update_sender_status#1 as do_status_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> says(*old(connection), *final(connection), populated(VxPopulate::Sender(sender_status, old(connection).call_id), old(connection).accumulated_rtp_data_message)),
//% sig fn do_status_now(connection: &mut Connection, sender_status: SenderStatus) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::handle_update_sender_status#0 as do_status
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> says(*old(connection), *final(connection), populated(VxPopulate::Sender(sender_status, old(connection).call_id), old(connection).accumulated_rtp_data_message)),
//% sig fn do_status(connection: &mut Connection, sender_status: SenderStatus)
//% closure 0
$REPLACE do_status_now(connection, sender_status)
//% end

//% fn ConnectionStateMachine::handle_update_data_mode#1 as do_mode_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> mode_set(*old(connection), *final(connection), data_mode),
//% sig fn do_mode_now(connection: &mut Connection, data_mode: DataMode) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::handle_update_data_mode#0 as do_mode
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> mode_set(*old(connection), *final(connection), data_mode),
//% sig fn do_mode(connection: &mut Connection, data_mode: DataMode)
//% closure 0
$REPLACE do_mode_now(connection, data_mode)
//% end

//% fn ConnectionStateMachine::handle_local_ice_candidates#1 as do_candidates_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> *final(connection) == old(connection).doing(Deed::Candidates(candidates)),
//% sig fn do_candidates_now(connection: &mut Connection, candidates: Vec<signaling::IceCandidate>) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::handle_local_ice_candidates#0 as do_candidates
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> reported(old(connection).doing(Deed::Candidates(candidates)), *final(connection)),
//% sig fn do_candidates(connection: &mut Connection, candidates: Vec<signaling::IceCandidate>)
//% closure 0
$REPLACE do_candidates_now(connection, candidates)
//% end

//% fn ConnectionStateMachine::handle_received_incoming_media#1 as do_media_now
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> r is Ok,
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> *final(connection) == old(connection).doing(Deed::Media(stream)),
//% sig fn do_media_now(connection: &mut Connection, stream: MediaStream) -> (r: Result<()>)
//% end

//% fn ConnectionStateMachine::handle_received_incoming_media#0 as do_media
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        old(connection).state is Terminating ==> *final(connection) == *old(connection),
        !(old(connection).state is Terminating) ==> reported(old(connection).doing(Deed::Media(stream)), *final(connection)),
//% sig fn do_media(connection: &mut Connection, stream: MediaStream)
//% closure 0
$REPLACE do_media_now(connection, stream)
//% end

//% fn ConnectionStateMachine::handle_send_hangup_via_rtp_data#0 as do_hangup
    requires
        whole(*old(connection)),
        room(*old(connection)),
    ensures
        says(*old(connection), *final(connection), populated(VxPopulate::Hangup(RtpHangup {
            id: Some(old(connection).call_id.id),
            r#type: Some(hangup_number(hangup_as(hangup).0)),
            device_id: hangup_as(hangup).1,
        }), old(connection).accumulated_rtp_data_message)),
//% sig fn do_hangup(connection: &mut Connection, hangup: Hangup)
//% end
