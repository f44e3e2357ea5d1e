"""Build a harness crate (under /verif/harness) against /repo's current source, offline."""

import fcntl
import os
import subprocess
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, ".build")


def env(target):
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.91.1", RUSTC_WRAPPER="", CARGO_NET_OFFLINE="true",
             CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             PATH="/root/.cargo/bin:" + e.get("PATH", ""))
    for k in ("RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def build(crate, timeout=600):
    t0 = time.time()
    d = os.path.join(HERE, "harness", crate)
    target = os.path.join(BUILD, crate)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(BUILD, crate + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        prep = os.path.join(d, "prepare.py")
        try:
            if os.path.exists(prep):
                p = subprocess.run(["python3", prep], capture_output=True, text=True, timeout=60)
                if p.returncode:
                    return dict(ok=False, note="prepare: " + (p.stdout + p.stderr)[-1500:], s=time.time() - t0)
            # a harness that needs all of ringrtc is a member of a workspace laid out by its prepare.py
            ws = os.path.join(target, "ws", "h" + crate)
            p = subprocess.run(["cargo", "build", "--offline"], cwd=ws if os.path.isdir(ws) else d, env=env(target), capture_output=True,
                               text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return dict(ok=False, note=f"the harness did not build within {timeout} s", s=time.time() - t0)
    if p.returncode:
        return dict(ok=False, note="the harness does not build against this tree: " + p.stderr[-2500:],
                    s=time.time() - t0)
    return dict(ok=True, bin=os.path.join(target, "debug", "h" + crate), note=None, s=time.time() - t0)
