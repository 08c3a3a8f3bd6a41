"""Bounded replay: builds the harness against /repo's crate and runs one property's cases."""
import os, re, shutil, subprocess, time
from proof import VERIF, REPO, BUILD
FEATURES = {"C01": "buffers", "C02": "buffers", "C03": "buffers", "C04": "comp,lexemes", "C05": "lexemes", "C06": "lexemes", "C07": "lexemes",
            "C08": "comp", "C09": "comp", "C10": "comp", "C11": "comp", "C12": "comp", "C16": "comp,lexemes", "C18": "comp,lexemes"}

def nightly_env(target):
    # a cargo home of our own: cargo writes lock files there, and /opt/vp must stay as it is
    home = os.path.join(BUILD, "cargo-home"); os.makedirs(home, exist_ok=True)
    shutil.copy("/opt/vp/cargo-home/config.toml", home + "/config.toml")
    e = {k: v for k, v in os.environ.items() if k not in ("RUSTFLAGS", "RUSTC", "RUSTDOC", "RUST_BACKTRACE")}
    e.update(HOME="/root", RUSTUP_HOME="/root/.rustup", CARGO_HOME=home, RUSTUP_TOOLCHAIN="nightly-2021-08-29-x86_64-unknown-linux-gnu",
             PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
             CARGO_TARGET_DIR=target, CARGO_INCREMENTAL="0")
    return e

def build(prop, work):
    """returns (binary, None) or (None, why)"""
    crate = work + "/replay-crate"
    if os.path.isdir(crate): shutil.rmtree(crate)
    shutil.copytree(VERIF + "/replay", crate, ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    c = open(crate + "/Cargo.toml").read().replace("/repo/nommy", REPO + "/nommy")
    open(crate + "/Cargo.toml", "w").write(c)
    lock = REPO + "/Cargo.lock"
    shutil.copy(lock if os.path.exists(lock) else "/opt/vp/Cargo.lock", crate + "/Cargo.lock")
    target = os.path.join(BUILD, "replay-target")
    p = subprocess.run(["cargo", "build", "--offline", "--features", FEATURES[prop]], cwd=crate, env=nightly_env(target), capture_output=True, text=True)
    if p.returncode: return None, "the replay harness does not build against the crate: " + "\n".join([l for l in p.stderr.splitlines() if l.startswith("error")][:5] or p.stderr.splitlines()[-5:])
    return target + "/debug/replay", None

class Outcome:
    def __init__(s): s.cases = s.nontrivial = 0; s.samples = []; s.fails = []; s.note = None; s.wall = 0.0; s.done = False

def run(binary, prop, tier, seed, work, timeout=400):
    o = Outcome(); t0 = time.time()
    cmd = "ulimit -v 12000000; ulimit -c 0; exec timeout -k 5 %d %s %s %s %d" % (timeout, binary, prop, tier, seed)
    env = dict(os.environ); env.pop("REPLAY_TRACE", None)
    p = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, errors="replace", env=env, cwd=work)
    for l in p.stdout.splitlines():
        if l.startswith("CASES "): o.cases = int(l[6:])
        elif l.startswith("NONTRIVIAL "): o.nontrivial = int(l[11:])
        elif l.startswith("SAMPLE "): o.samples.append(l[7:])
        elif l.startswith("FAIL "):
            k, _, d = l[5:].partition(" :: "); o.fails.append((k, d))
        elif l == "DONE": o.done = True
    hang = any(d.startswith("HANG") for _, d in o.fails)
    if not o.done or hang:
        # crashed, ran out of time or hung: run again, writing down each case before it is run
        if not o.done and p.returncode == 124:
            o.note = "replay ran out of its %d s" % timeout
        else:
            tr = work + "/trace.txt"
            if os.path.exists(tr): os.remove(tr)
            q = subprocess.run(["bash", "-c", cmd], capture_output=True, text=True, errors="replace", env=dict(env, REPLAY_TRACE=tr), cwd=work)
            what = "did not end" if hang else "the process died (status %s)" % p.returncode
            cur = open(tr).read().split("\n") if os.path.exists(tr) else []
            o.fails = [f for f in o.fails if not f[1].startswith("HANG")]
            o.fails.append((cur[0] if cur else "?", (cur[1] if len(cur) > 1 else "?") + " -- " + what))
    o.wall = time.time() - t0
    return o
