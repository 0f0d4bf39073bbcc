#!/usr/bin/env python3
"""try_seeded.py WORKERS [ID ...]: apply each planted change of /verif/seeded to a scratch copy of /repo,
run its property's quick check there (from a scratch copy of the harness) and print which are caught.
Not a check; for development only."""
import json, os, queue, shutil, subprocess, sys, threading, time

SCRATCH = os.environ.get("SCRATCH", "/tmp/try_seeded")
SEEDED = "/verif/seeded"
n = int(sys.argv[1])
ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
q = queue.Queue()
for i in ids:
    q.put(i)
lock = threading.Lock()
res = {}


def run(cmd, **kw):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=900)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.wait()
        return "timeout", ""


def worker(k):
    d = f"{SCRATCH}/w{k}"
    os.makedirs(d, exist_ok=True)
    repo, ver = d + "/repo", d + "/verif"
    if not os.path.exists(repo):
        run(["git", "clone", "-q", "/repo", repo])
        shutil.copy("/repo/Cargo.lock", repo + "/Cargo.lock")
    run(["git", "-C", repo, "fetch", "-q", "/repo", "HEAD"])
    run(["git", "-C", repo, "reset", "-q", "--hard", "FETCH_HEAD"])
    h = ver + "/harness"
    if not os.path.exists(h):
        os.makedirs(ver)
        shutil.copytree("/verif/harness", h, symlinks=True)
    if os.path.exists(h + "/src"):
        shutil.rmtree(h + "/src")
    shutil.copytree("/verif/harness/src", h + "/src")
    for f in ("Cargo.toml", "Cargo.lock"):
        t = open("/verif/harness/" + f).read()
        open(f"{h}/{f}", "w").write(t.replace("../../repo", repo))
    shutil.copy("/verif/harness/baseline.dict", h)
    shutil.copy("/verif/known_findings.txt", ver)
    if os.path.exists("/verif/regress"):
        shutil.copytree("/verif/regress", ver + "/regress", dirs_exist_ok=True)
    env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               RUSTFLAGS="--cfg keride_verif", VERIF_ROOT=ver, VERIF_TIER="quick")
    env.setdefault("VERIF_SEED", "1")
    while True:
        try:
            i = q.get_nowait()
        except queue.Empty:
            return
        meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
        run(["git", "-C", repo, "checkout", "-q", "--", "."])
        rc, o = run(["git", "-C", repo, "apply", f"{SEEDED}/{i}/patch.diff"])
        t = time.time()
        if rc != 0:
            r = "patch does not apply"
        else:
            rc, o = run(["cargo", "build", "--offline"], cwd=h, env=env)
            if rc != 0:
                r = "does not build"
            else:
                t = time.time()
                rc, o = run([h + "/target/debug/harness", "check", meta["property"]], cwd=ver, env=env)
                v = [l for l in o.split("\n") if l.startswith(f"VIOLATION property={meta['property']} ")]
                r = "caught" if rc == 1 and v else f"MISSED rc={rc}"
        with lock:
            res[i] = (meta["property"], r)
            print(f"{i:34} {meta['property']} {r} {time.time() - t:.0f}s", flush=True)


ts = [threading.Thread(target=worker, args=(k,)) for k in range(n)]
[t.start() for t in ts]
[t.join() for t in ts]
bad = [i for i in res if res[i][1] != "caught"]
print(len(res), "tried,", len(bad), "not caught:", bad)
