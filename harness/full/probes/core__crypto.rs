// Access to private state of the parent module; decides nothing.
use super::*;

pub fn set_frame_counter(c: &mut Context, n: u64) {
    c.next_frame_counter = n;
}
pub fn receive_keys(c: &Context) -> Vec<(SenderId, Vec<(u8, Vec<u8>)>)> {
    let mut v: Vec<_> = c
        .remote_states_by_id
        .iter()
        .filter(|(_, l)| !l.is_empty())
        .map(|(d, l)| (*d, l.iter().map(|r| (r.sender_state.ratchet_counter, r.sender_state.current_secret.to_vec())).collect()))
        .collect();
    v.sort();
    v
}
