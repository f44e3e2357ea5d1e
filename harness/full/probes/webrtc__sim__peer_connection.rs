// What the simulated peer connection was told; decides nothing.
use super::*;
use std::sync::atomic::{AtomicBool, AtomicU16, AtomicU32, Ordering};

#[derive(Clone, Debug, PartialEq)]
pub enum Note {
    AddIce(String),
    RemoveIce(Vec<String>),
    Close,
    Regather,
    Playout(bool),
    Recording(bool),
    Incoming(bool),
    Outgoing(bool),
    MaxRate(i32),
    Rtp { pt: u8, seqnum: u16, timestamp: u32, ssrc: u32, payload: Vec<u8> },
}
pub static ON: AtomicBool = AtomicBool::new(false);
pub static NOTES: Mutex<Vec<(usize, Note)>> = Mutex::new(Vec::new());
pub static BWE: AtomicU32 = AtomicU32::new(0);
pub static LEVEL: AtomicU16 = AtomicU16::new(0);
pub fn note(p: usize, n: impl FnOnce() -> Note) {
    if ON.load(Ordering::SeqCst) {
        NOTES.lock().unwrap().push((p, n()));
    }
}
pub fn text(p: webrtc::ptr::Borrowed<c_char>) -> String {
    unsafe { std::ffi::CStr::from_ptr(p.as_ptr()).to_string_lossy().into_owned() }
}
pub fn addrs(p: webrtc::ptr::Borrowed<RffiIpPort>, n: usize) -> Vec<String> {
    unsafe { std::slice::from_raw_parts(p.as_ptr(), n).iter().map(|a| { let s: SocketAddr = a.into(); s.to_string() }).collect() }
}
pub fn bytes(p: webrtc::ptr::Borrowed<u8>, n: usize) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(p.as_ptr(), n).to_vec() }
}
pub fn bwe() -> u32 {
    BWE.load(Ordering::SeqCst)
}
pub fn level() -> u16 {
    LEVEL.load(Ordering::SeqCst)
}
