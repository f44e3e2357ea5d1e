//% source src/rust/src/common/mod.rs
// ---- the states of a call and of a connection, and what may happen in each --------------------
//% item enum CallState derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum ConnectionState derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum CallDirection derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum CallEndReason derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum ApplicationEvent derive=Clone,Copy,PartialEq,Eq,Structural
//% item enum DataMode repr=i32 derive=Clone,Copy,PartialEq,Eq,Structural
//% item struct CallId derive=Clone,Copy,PartialEq,Eq,Structural
//% item type DeviceId

pub open spec fn ended(s: CallState) -> bool {
    s is Terminating || s is Terminated
}

pub open spec fn in_call(s: CallState) -> bool {
    s is ConnectedAndAccepted || s is ReconnectingAfterAccepted
}

pub open spec fn conn_ended(s: ConnectionState) -> bool {
    s is Terminating || s is Terminated
}

pub open spec fn conn_in_call(s: ConnectionState) -> bool {
    s is ConnectedAndAccepted || s is ReconnectingAfterAccepted
}

pub open spec fn conn_up(s: ConnectionState) -> bool {
    s is ConnectingBeforeAccepted || s is ConnectingAfterAccepted || s is ConnectedBeforeAccepted || conn_in_call(s)
}

impl CallState {
    //% fn CallState::can_receive_ice_candidates
        ensures
            r == (!(self is NotYetStarted) && !ended(self)),
    //% end

    //% fn CallState::connected_or_reconnecting
        ensures
            r == (self is ConnectedBeforeAccepted || in_call(self)),
    //% end

    //% fn CallState::can_be_accepted_locally
        ensures
            r == (self is ConnectedBeforeAccepted),
    //% end

    //% fn CallState::active
        ensures
            r == (in_call(self)),
    //% end

    //% fn CallState::accepted
        ensures
            r == (self is ConnectingAfterAccepted || in_call(self)),
    //% end

    //% fn CallState::can_send_hangup_via_rtp
        ensures
            r == (!(self is NotYetStarted)),
    //% end

    //% fn CallState::should_propagate_hangup
        ensures
            r == (self is WaitingToProceed || self is ConnectingBeforeAccepted || self is ConnectedBeforeAccepted),
    //% end

    //% fn CallState::can_be_terminated_remotely
        ensures
            r == (!(self is NotYetStarted) && !ended(self)),
    //% end

    //% fn CallState::terminating_or_terminated
        ensures
            r == (ended(self)),
    //% end

}

impl ConnectionState {
    //% fn ConnectionState::can_send_ice_candidates
        ensures
            r == (!(self is NotYetStarted) && !conn_ended(self)),
    //% end

    //% fn ConnectionState::can_receive_ice_candidates
        ensures
            r == (conn_up(self)),
    //% end

    //% fn ConnectionState::connecting_or_connected
        ensures
            r == (conn_up(self)),
    //% end

    //% fn ConnectionState::connected_or_reconnecting
        ensures
            r == (self is ConnectedBeforeAccepted || conn_in_call(self)),
    //% end

    //% fn ConnectionState::can_be_accepted_locally
        ensures
            r == (self is ConnectingBeforeAccepted || self is ConnectedBeforeAccepted || self is ReconnectingAfterAccepted),
    //% end

    //% fn ConnectionState::active
        ensures
            r == (conn_in_call(self)),
    //% end

    //% fn ConnectionState::can_send_hangup_via_rtp
        ensures
            r == (!(self is NotYetStarted)),
    //% end

    //% fn ConnectionState::terminating_or_terminated
        ensures
            r == (conn_ended(self)),
    //% end

}

impl CallId {
    //% fn CallId::new
        ensures
            r.id == id,
    //% end
}

impl DataMode {
    pub open spec fn rate(self) -> DataRate {
        match self {
            DataMode::Low => kbps(300),
            DataMode::Normal => kbps(2000),
            DataMode::Custom { max_bitrate, .. } => max_bitrate,
        }
    }

    //% fn DataMode::from_i32
        ensures
            r == (if value == 0 { DataMode::Low } else { DataMode::Normal }),
    //% end

    //% fn DataMode::max_bitrate
        ensures
            r == self.rate(),
    //% sub? units::DataRate ==> DataRate
    //% sub? match self\s ==> match *self 
    //% sub? &DataMode:: ==> DataMode::
    //% end
}
