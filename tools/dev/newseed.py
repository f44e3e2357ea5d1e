"""newseed(id, prop, file, old, new, needs, breaks, demo_rs, deps)"""
import os, json, subprocess
def mk(sid, prop, edits, needs, breaks, demo_files):
    d=f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
    subprocess.run("git -C /repo checkout -- .", shell=True)
    for f, old, new in edits:
        p="/repo/"+f; s=open(p).read(); assert s.count(old)==1, (sid, f, s.count(old), old); open(p,"w").write(s.replace(old,new))
    open(d+"/patch.diff","w").write(subprocess.run("git -C /repo diff", shell=True, capture_output=True, text=True).stdout)
    subprocess.run("git -C /repo checkout -- .", shell=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d+"/meta.json","w"), indent=1)
    for n,t in demo_files.items(): open(f"{d}/{n}","w").write(t)
MRP_DEMO='''#!/bin/bash
# cwd: the repository.  Builds a small program against its mrp crate in a scratch folder.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
mkdir "$w/src"
cp "$here/demo.rs" "$w/src/main.rs"
cat > "$w/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
mrp = { path = "$repo/mrp" }
anyhow = "1"
T
export CARGO_TARGET_DIR="$w/target"
cd "$w" && cargo run --offline -q
'''


# ---- demos that need the whole of ringrtc (git dependencies replaced by small stand-ins) ----
FULL_DEMO = '''#!/bin/bash
# cwd: the repository.  Builds ringrtc with its "sim" feature (dependencies that are not available offline
# replaced by the stand-ins in stubs/) in a scratch folder, together with demo.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 2
trap 'rm -rf -- "$w"' EXIT
python3 "$here/layout.py" "$repo" "$w/ws" "$here" || exit 2
export CARGO_TARGET_DIR="$w/target"
cd "$w/ws/demo" && cargo build --offline -q && timeout 120 "$w/target/debug/demo"
'''


def full_files(demo, deps="", only=None):
    """files of a demo: demo.rs, rig.rs (records what a group client does, on a virtual clock), layout.py, stubs"""
    H = "/verif/harness"
    rd = lambda p: open(p).read()
    out = {"demo.sh": FULL_DEMO, "demo.rs": demo, "rig.rs": rd(H + "/full/src/rig.rs"), "support.rs": rd(H + "/support/support.rs"),
           "c_rig.rs": rd(H + "/full/src/c_rig.rs")}
    for s in ("zkgroup", "x25519-dalek"):
        out[f"stubs/{s}/Cargo.toml"] = rd(f"{H}/stubs/{s}/Cargo.toml")
        out[f"stubs/{s}/src/lib.rs"] = rd(f"{H}/stubs/{s}/src/lib.rs")
    for k in ("probes", "stand_ins"):
        for n in os.listdir(f"{H}/full/{k}"):
            out[f"{k}/{n}"] = rd(f"{H}/full/{k}/{n}")
    t = rd(H + "/full/prepare.py")
    t = t.replace('HERE = os.path.dirname(os.path.abspath(__file__))\nVERIF = os.path.dirname(os.path.dirname(HERE))\nREPO = "/repo"\nWS = os.path.join(VERIF, ".build", "full", "ws")\n',
                  'import sys\n\nREPO, WS, HERE = sys.argv[1:4]\n')
    t = t.replace('os.path.join(VERIF, "harness/stubs")', 'os.path.join(HERE, "stubs")')
    a = t.index('    for n in ("Cargo.toml", "build.rs", "src"):'); b = t.index("    names = set()")
    t = t[:a] + '''    write("demo/Cargo.toml", """[package]
name = "demo"
version = "0.0.0"
edition = "2024"

[dependencies]
ringrtc = { path = "../src/rust", features = ["sim"] }
zkgroup = { path = "../stubs/zkgroup" }
x25519-dalek = { path = "../stubs/x25519-dalek", features = ["static_secrets"] }
mrp = { path = "../mrp" }
protobuf = { path = "../protobuf" }
prost = "0.14"
anyhow = "1"
hex = "0.4"
%s""")
    write("demo/build.rs", """fn main() {
    for n in std::fs::read_to_string("link-args.txt").unwrap().split_whitespace() {
        println!("cargo:rustc-link-arg=-Wl,--defsym={n}=0");
    }
}
""")
    link(os.path.join(HERE, "demo.rs"), "demo/src/main.rs")
    for n in ("rig.rs", "c_rig.rs", "support.rs"):
        link(os.path.join(HERE, n), "demo/src/" + n)
''' % deps + t[b:]
    t = t.replace("hfull", "demo").replace(".build/full/ws", "a cargo workspace of /repo")
    t = t.replace('"""Lays out a cargo workspace of /repo: the whole of /repo as a cargo workspace', '"""Lays out the whole of /repo as a cargo workspace')
    assert "VERIF" not in t and "/verif" not in t, t
    out["layout.py"] = t
    return out


GROUP_HEAD = '''#![allow(dead_code, unused_imports)]
mod rig;
mod support;
use rig::*;
use ringrtc::{core::group_call::{vx_probe as g, *}, protobuf::group_call as pb, webrtc::peer_connection::SendRates};
use std::collections::BTreeSet;

/// who got which media key: (user, key step, key)
fn keys(e: &[Ev]) -> Vec<(u64, u32, Vec<u8>)> {
    let mut v = vec![];
    for x in e {
        let (to, msg) = match x {
            Ev::Send { to, msg, .. } => (vec![to.clone()], msg),
            Ev::Group { to, msg, .. } => (to.iter().cloned().collect(), msg),
            _ => continue,
        };
        if let Some(k) = msg.group_call_message.as_ref().and_then(|g| g.media_key.as_ref()) {
            for u in to {
                v.push((u[0] as u64, k.ratchet_counter.unwrap(), k.secret.clone().unwrap()));
            }
        }
    }
    v.sort();
    v
}
fn shown(r: &Rig) -> Vec<u32> {
    r.seen().devices.iter().map(|d| d.demux_id).collect()
}
fn check(ok: bool, what: &str) {
    if !ok {
        println!("{what}");
        std::process::exit(1);
    }
}
'''


def group_demo(body):
    return full_files(GROUP_HEAD + "\nfn main() {\n" + body + "\n}\n")


CALL_HEAD = '''#![allow(dead_code, unused_imports)]
mod c_rig;
use c_rig::*;
use prost::Message;
use ringrtc::protobuf::rtp_data as pb;

fn check(ok: bool, what: &str) {
    if !ok {
        println!("{what}");
        std::process::exit(1);
    }
}
fn go(r: &mut Real, ops: &[Op]) -> Vec<Ev> {
    for op in ops {
        r.inject(op);
    }
    r.settle()
}
fn offer(peer: u8, id: u64, from: u32) -> Op {
    Op::Offer { peer, id, age: 0, from, to: 1, video: true, max: None, bad: Bad::No }
}
fn proceed(id: u64) -> Op {
    Op::Proceed { id, ctx: 1, low: false, levels_ms: None }
}
fn rtp(n: usize, timestamp: u32, m: Msg) -> Op {
    Op::Rtp { n, pt: 101, ssrc: 0xD, timestamp, payload: m.encode_to_vec() }
}
fn accepted(id: u64, seqnum: u64) -> Msg {
    Msg { accepted: Some(pb::Accepted { id: Some(id) }), seqnum: Some(seqnum), ..Default::default() }
}
/// an incoming call from the peer's device, connected and accepted; its connection is number n
fn incoming(r: &mut Real, n: usize, peer: u8, id: u64, from: u32) {
    go(r, &[Op::Assume(true)]);
    go(r, &[offer(peer, id, from)]);
    go(r, &[proceed(id)]);
    go(r, &[Op::Media { n }]);
    go(r, &[Op::IceState { n, what: 1 }]);
    go(r, &[Op::Accept { id }]);
}
/// an outgoing call, answered by the peer's device; its connection is number n + 1
fn outgoing(r: &mut Real, peer: u8, id: u64, from: u32) {
    go(r, &[Op::Assume(true)]);
    go(r, &[Op::Call { peer, id, video: true, local: 1 }]);
    go(r, &[proceed(id)]);
    go(r, &[Op::Answer { peer, id, from, max: None, bad: Bad::No }]);
}
'''


def call_demo(body):
    return full_files(CALL_HEAD + "\nfn main() {\n    let mut r = Real::new();\n" + body + "\n}\n")


_mk = mk


def mk(sid, prop, edits, needs, breaks, demo_files):
    for n in demo_files:
        os.makedirs(os.path.dirname(f"/verif/seeded/{sid}/{n}"), exist_ok=True)
    _mk(sid, prop, edits, needs, breaks, demo_files)
