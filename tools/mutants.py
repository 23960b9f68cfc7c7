#!/usr/bin/env python3
"""Mutation campaign: which small changes of /repo do the checks not notice?

usage: mutants.py OUT.jsonl [-n PER_FILE] [-j JOBS] [-s SEED] [-scale F] [-only REGEX] [-checks C01,C02]

Every mutant is built through an overlay (neither /repo nor /verif changes),
must compile and pass /repo's stable tests, and is then given to the checks
mapped to its file until one reports a violation. This is a development aid:
no registered check uses it.
"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MUT_REPO", "/repo")  # a copy if /repo changes meanwhile; harness/go.mod must name it
ENV = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOSUMDB="off")
MAP = [
    (r"^encoding/encoding_v1/", "C02 C03 C01 C08 C06 C05 C04 C09"),
    (r"^encoding/encoding_v2/", "C02 C03 C01 C08 C07 C06 C05 C04 C09"),
    (r"^encoding/", "C08 C05 C03 C02"),
    (r"^connection/", "C10 C11 C12 C13 C14 C16 C15 C09 C26 C25 C24 C28 C18 C17"),
    (r"^connection\.go", "C10 C11 C12 C13 C14 C16 C15 C09 C26 C25 C24 C28 C18 C17"),
    (r"transaction\.go", "C14 C12 C15 C13 C11 C18"),
    (r"alive\.go", "C13 C19 C16 C17"),
    (r"result\.go|rows", "C26 C11 C12"),
    (r"driver_routing_pool|^routing/|routing", "C22 C21 C23 C24 C25"),
    (r"driver|factory|pool", "C19 C20 C24 C21 C25"),
    (r"client|opt", "C24 C25 C10"),
    (r"errors/", "C27 C12"),
    (r"log/", "C28"),
    (r"messages|protocol", "C09 C10 C11 C14 C12 C15 C02 C03 C08"),
    (r"structures", "C08 C02 C03 C07 C09"),
    (r"", "C24 C11 C10 C14 C21"),
]

def checks_for(f):
    for rx, cs in MAP:
        if re.search(rx, f):
            return cs.split()

def sh(cmd, cwd, timeout, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout, start_new_session=True)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as e:
        return 124, "timeout"

def stable(out, want):
    ok = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            ok.add(e["Package"] + "/" + e["Test"])
    return want <= ok

def one(m, args, want):
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        src = open(REPO + "/" + m["file"], "rb").read()
        new = src[:m["from"]] + m["text"].encode() + src[m["to"]:]
        mf = d + "/m.go"
        open(mf, "wb").write(new)
        ov = d + "/ov.json"
        json.dump({"Replace": {REPO + "/" + m["file"]: mf}}, open(ov, "w"))
        rc, out = sh(["go", "build", "-overlay", ov, "-o", d + "/vharness", "."], VERIF + "/harness", 300)
        if rc:
            return "nobuild", "", ""
        rc, out = sh(["go", "test", "-overlay", ov, "-short", "-json", "-vet=off", "-count=1", "-timeout", "2m", "./..."], REPO, 300)
        if not stable(out, want):
            return "tests", "", ""
        shutil.copy(VERIF + "/known-findings.txt", d + "/known-findings.txt")
        notes = []
        for c in (args.checks.split(",") if args.checks else checks_for(m["file"])):
            env = dict(ENV, VERIF_ROOT=d, VHARNESS_SHRINK="1", VHARNESS_SCALE=str(args.scale), VHARNESS_RACE=d + "/vharness", VERIF_SEED=str(args.s))
            if re.search(r"race", args.only or "^$") or c in ("C18", "C20", "C23"):
                if not os.path.exists(d + "/vharness-race"):
                    sh(["go", "build", "-race", "-overlay", ov, "-o", d + "/vharness-race", "."], VERIF + "/harness", 300)
                env["VHARNESS_RACE"] = d + "/vharness-race"
            t0 = time.time()
            rc, out = sh([d + "/vharness", "run", c, "quick"], VERIF, 900, env)
            if rc == 1:
                return "killed", c, "%.0fs" % (time.time() - t0)
            if rc != 0:
                notes.append("%s rc=%d %s" % (c, rc, out[-600:]))
            try:
                for a in json.load(open(d + "/evidence/%s.json" % c)).get("assumptions", []):
                    if "not reproduced" in a:
                        notes.append(c + " " + a[:400])
            except (OSError, ValueError):
                pass
        return ("infra" if any(" rc=" in n for n in notes) else "survived"), "", "\n".join(notes)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("-n", type=int, default=30)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("-scale", type=float, default=0.3)
    ap.add_argument("-only", default="")
    ap.add_argument("-checks", default="")
    ap.add_argument("-redo", default="", help="run again the mutants of this result file that survived")
    ap.add_argument("-swaps", action="store_true", help="names of the same type swapped, loops cut short, statements twice or in another order")
    ap.add_argument("-skip", default="", help="leave out the mutants of these result files (comma separated)")
    args = ap.parse_args()
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    if args.redo:
        todo = [json.loads(l) for l in open(args.redo)]
        todo = [m for m in todo if m["result"] in ("survived", "infra")]
    else:
        tool = tempfile.mkdtemp(prefix="mutate-")
        rc, out = sh(["go", "build", "-o", tool + "/mutate", "."], VERIF + "/tools/mutate", 300)
        if rc:
            sys.exit(out)
        files = [f for f in subprocess.check_output(["git", "ls-files", "*.go"], cwd=REPO, text=True).split() if not f.endswith("_test.go")]
        out = subprocess.check_output([tool + "/mutate"] + ["-swaps"] * args.swaps + files, cwd=REPO, text=True)
        shutil.rmtree(tool)
        skip = set()
        for f in filter(None, args.skip.split(",")):
            for l in open(f):
                m = json.loads(l)
                skip.add((m["file"], m["from"], m["to"], m["text"]))
        per = {}
        for l in out.splitlines():
            m = json.loads(l)
            if re.search(args.only, m["file"]) and (m["file"], m["from"], m["to"], m["text"]) not in skip:
                per.setdefault(m["file"], []).append(m)
        rnd = random.Random(args.s)
        for f in per:  # most of those change nothing
            per[f] = [m for m in per[f] if not m["what"].startswith("swapped") or rnd.random() < 0.2]
        todo = []
        for f, ms in sorted(per.items()):
            todo += ms if len(ms) <= args.n else rnd.sample(ms, args.n)
        rnd.shuffle(todo)
    print(len(todo), "mutants", flush=True)
    q = queue.Queue()
    for m in todo:
        q.put(m)
    lock = threading.Lock()
    outf = open(args.out, "a")
    def work():
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                return
            t0 = time.time()
            try:
                r, c, note = one(m, args, want)
            except Exception as e:
                r, c, note = "infra", "", repr(e)
            m = dict(m, result=r, check=c, note=note, wall=round(time.time() - t0))
            with lock:
                outf.write(json.dumps(m) + "\n")
                outf.flush()
    ts = [threading.Thread(target=work) for _ in range(args.j)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
