#!/usr/bin/env python3
"""tools/miri.py OUT.json SECONDS SEED: C01's cases in the Miri interpreter (scalar, SSE4.1 and AVX2 row code).

Builds the harness for Miri from /repo's working tree, runs 8 interpreters for SECONDS, prints a VIOLATION line per undefined
behaviour found.  Exit 1 on a violation, otherwise 0 - also where Miri cannot run (OUT.json then says so)."""
import subprocess, sys, os, json, time, threading, re
out, secs, seed = sys.argv[1], float(sys.argv[2]), int(sys.argv[3])
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS = [("scalar", "", "common"), ("sse41", "-Ctarget-feature=+sse4.1,+ssse3", "common,yuv/sse"), ("avx2", "-Ctarget-feature=+avx2,+fma,+sse4.1,+ssse3", "common,yuv/sse,yuv/avx")]
def env(kind, flags):
    e = dict(os.environ, CARGO_TARGET_DIR=f"{V}/build/miri-{kind}", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="-Awarnings " + flags,
             MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-tree-borrows")
    return e
def cmd(feat, *a): return ["cargo", "miri", "run", "-q", "--offline", "--no-default-features", "--features", feat, "--", *a]
res = {"cases": 0, "undefined_behaviour": 0, "per_row_code": {}, "unsupported_by_miri": []}
def finish(rc):
    json.dump(res, open(out, "w"))
    sys.exit(rc)
ok = {}
def build(kind, flags, feat):
    # cargo decides by modification times; the copied tree may carry old ones
    h = subprocess.run("(cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum", shell=True, capture_output=True, text=True).stdout
    d = f"{V}/build/miri-{kind}"; os.makedirs(d, exist_ok=True); f = d + "/.srchash"
    if os.path.exists(f) and open(f).read() != h: subprocess.run(["rm", "-rf", d + "/miri"])
    p = subprocess.run(cmd(feat, "levels"), cwd=V + "/harness", env=env(kind, flags), capture_output=True, text=True)
    ok[kind] = p.returncode == 0
    if ok[kind]: open(f, "w").write(h)
    else: res.setdefault("build_failed", []).append(kind + ": " + p.stderr.strip()[-300:])
ts = [threading.Thread(target=build, args=k) for k in KINDS]
for t in ts: t.start()
for t in ts: t.join()
if not any(ok.values()): print("Miri cannot run here"); finish(0)
if secs <= 0: finish(0)
end = time.time() + secs
lock = threading.Lock(); bad = []
def work(i):
    kind, flags, feat = [k for k in (KINDS[2], KINDS[1], KINDS[2], KINDS[0]) if ok[k[0]]][i % sum(ok[k[0]] for k in (KINDS[2], KINDS[1], KINDS[2], KINDS[0]))]
    skip = []; n = 0
    while time.time() < end and len(bad) < 5:
        n += 1
        p = subprocess.Popen(cmd(feat, "miri", str(seed * 1000 + i * 37 + n), ",".join(skip)), cwd=V + "/harness", env=env(kind, flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        timer = threading.Timer(max(1, end - time.time()), lambda: os.killpg(p.pid, 9)); timer.start()
        err = []; te = threading.Thread(target=lambda: err.append(p.stderr.read())); te.start()
        case = None
        for l in p.stdout:
            if l.startswith("CASE "): case = l[5:].strip()
            elif l.startswith("DONE "):
                case = None
                with lock: res["cases"] += 1; res["per_row_code"][kind] = res["per_row_code"].get(kind, 0) + 1
        p.wait(); te.join(); timer.cancel()
        if p.returncode in (0, -9) or case is None: continue
        e = err[0] if err else ""
        op = re.search(r"op=(\S+)", case)[1]
        m = re.search(r"^error: (.*)$", e, re.M)
        why = m[1] if m else "?"
        if "Undefined Behavior" in why or "memory leaked" in why:
            where = re.findall(r"(?:-->|at) (/repo/\S+)", e)[:2]
            with lock:
                res["undefined_behaviour"] += 1
                rp = f"{V}/evidence/replay/C01-miri{len(bad)}.txt"; bad.append(op)
                os.makedirs(os.path.dirname(rp), exist_ok=True)
                open(rp, "w").write(f"property=C01 monitor=miri op={op} row code={kind}\nmessage={why}\ncase={case}\n\n{e[:6000]}\n")
                print(f"VIOLATION property=C01 replay={rp}\n  miri {op} [{kind}] {why[:200]} at {' <- '.join(where)}\n  {case}", flush=True)
        else:
            with lock:
                u = f"{op} [{kind}]: {why[:90]}"
                if u not in res["unsupported_by_miri"]: res["unsupported_by_miri"].append(u)
        skip.append(op)
ts = [threading.Thread(target=work, args=(i,)) for i in range(8)]
for t in ts: t.start()
for t in ts: t.join()
print(f"C01 under Miri: {res['cases']} cases {res['per_row_code']}, {res['undefined_behaviour']} with undefined behaviour, {len(res['unsupported_by_miri'])} not supported")
finish(1 if bad else 0)
