#!/usr/bin/env python3
"""Driver of the property checks.

  check.py C01 quick|thorough     run one check; evidence in evidence/C01.json
  check.py replay FILE            run the failing case in a replay file again
  check.py setup                  compile everything once

Exit 0: the property held on all cases. Exit 1: violation, with a VIOLATION
line. Anything else: the check could not give an answer.
"""
import fcntl, json, os, re, shutil, socket, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, VERIF)
from checks import CHECKS  # id -> dict(pkg, shards, timeout, assumptions)

# The same race may be found again while a case is being shrunk.
GORACE = "halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 history_size=2"
GO = "/opt/veriftools/go1.27.3/bin"


def goenv():
    e = dict(os.environ)
    e["PATH"] = GO + ":" + e.get("PATH", "/usr/sbin:/usr/bin:/sbin:/bin")
    e.setdefault("HOME", "/root")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
             CGO_ENABLED="1", GOSUMDB="off")
    e.setdefault("GOPATH", "/root/go")
    e.setdefault("GOMODCACHE", "/root/go/pkg/mod")
    e.setdefault("GOCACHE", "/root/.cache/go-build")
    for k in list(e):
        if k.startswith("RAPID_") or k.startswith("HX_"):
            del e[k]
    return e


def die(msg, code=2):
    print("ERROR:", msg, flush=True)
    sys.exit(code)


def build(pkg, tmp, extra=(), name="check.test"):
    binary = os.path.join(tmp, name)
    r = subprocess.run(["go", "test", "-c", "-vet=off", *extra, "-o", binary, "./" + pkg],
                       cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(binary):
        die("build failed:\n" + r.stdout[-8000:])
    return binary


def isolate():
    """Gives the process a network of its own, which has only a loopback."""
    uid, gid = os.getuid(), os.getgid()
    os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWNET)
    for name, text in (("setgroups", "deny"), ("uid_map", "%d %d 1" % (uid, uid)), ("gid_map", "%d %d 1" % (gid, gid))):
        with open("/proc/self/" + name, "w") as f:
            f.write(text)
    with socket.socket(socket.AF_INET, socket.SOCK_DGRAM) as s:
        flags = struct.unpack("16sh14x", fcntl.ioctl(s, 0x8913, struct.pack("16sh14x", b"lo", 0)))[1]
        fcntl.ioctl(s, 0x8914, struct.pack("16sh14x", b"lo", flags | 1))


def isolation(c):
    """How to start the processes of a check: those that use sockets each have a
    network of their own, if possible, lest datagrams sent late in one of them
    reach a socket that has got the same port in another."""
    if c["pkg"] not in ("dlgcheck", "rtpcheck", "conccheck"):
        return None
    try:
        subprocess.run(["true"], preexec_fn=isolate, check=True)
    except (subprocess.SubprocessError, OSError):
        return None
    return isolate


def classify(rc, log):
    """-> 'ok', 'violation' or 'error'"""
    if rc == 0:
        return "ok"
    if "HX-INCONCLUSIVE" in log or "HX-ERROR" in log:
        return "error"
    if "HX-VIOLATION" in log or "HX-HANG" in log:
        return "violation"
    if re.search(r"\[rapid\] (failed|panic) after \d+ tests", log) or "[rapid] flaky test" in log:
        if "the race detector reports" in log and not gosip_race(log):
            return "error" # a race of the check with itself
        return "violation"
    if "WARNING: DATA RACE" in log:
        return "violation" if gosip_race(log) else "error"
    if "panic: test timed out" in log or "out of memory" in log or "cannot allocate memory" in log:
        return "error"
    m = re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault)", log, re.M)
    if m:
        # The goroutine that crashed is the first one in the trace.
        trace = log[m.start():]
        trace = re.split(r"\n\ngoroutine (?!\d+ (gp=\S+ m=\S+ )?(mp=\S+ )?\[running)", trace)[0]
        if "github.com/jart/gosip" in trace:
            return "violation"
    return "error"


def gosip_race(log):
    """Whether gosip takes part in a data race that was reported."""
    for r in log.split("WARNING: DATA RACE")[1:]:
        r = re.split(r"\n==================", r)[0]
        r = re.split(r"\n+Goroutine \d+ ", r)[0]  # where they were created
        if "github.com/jart/gosip" in r:
            return True
    return False


def main():
    if len(sys.argv) == 2 and sys.argv[1] == "setup":
        tmp = tempfile.mkdtemp(prefix="hx.")
        try:
            for pkg, extra in sorted({(c["pkg"], c.get("build", ())) for c in CHECKS.values()}):
                build(pkg, tmp, extra)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("setup ok")
        return 0
    if len(sys.argv) == 3 and sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if len(sys.argv) not in (2, 3) or sys.argv[1] not in CHECKS:
        die("usage: check.py ID [quick|thorough] | replay FILE | setup")
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) == 3 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        die("unknown tier " + tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        die("VERIF_SEED is not a number")
    return run(pid, tier, seed)


def run(pid, tier, seed):
    c = CHECKS[pid]
    start = time.time()
    shards = c.get("shards", 8)
    limit = c.get("timeout", 780) if tier == "quick" else c.get("thorough_timeout", 3 * 3600)
    tmp = tempfile.mkdtemp(prefix="hx.")
    try:
        return run_in(tmp, pid, tier, seed, c, start, shards, limit)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_in(tmp, pid, tier, seed, c, start, shards, limit):
    binary = build(c["pkg"], tmp, c.get("build", ()))
    searched, found = "", None
    if tier == "thorough" and "fuzz" in c:
        searched, found = fuzz(tmp, pid, c, binary)
        if found:
            print(found[1])
            print("VIOLATION property=%s replay=%s" % (pid, found[0]), flush=True)
    procs = []
    apart = isolation(c)
    for i in range(shards):
        cwd = os.path.join(tmp, "s%d" % i)
        os.mkdir(cwd)
        e = goenv()
        e.update(HX_TIER=tier, HX_SEED=str(seed), HX_SHARD=str(i), HX_SHARDS=str(shards),
                 HX_OUT=os.path.join(cwd, "report.json"), TMPDIR=cwd, GOTRACEBACK="all", GORACE=GORACE,
                 GOMAXPROCS=str(c.get("procs", 2)), GOMEMLIMIT="2500MiB", HX_SCALE=str(c.get("scale", 1)))
        logf = open(os.path.join(cwd, "log"), "w")
        args = [binary, "-test.run", "^Test%s($|[^0-9])" % pid, "-test.timeout", "%ds" % limit,
                "-test.v"]
        procs.append((i, cwd, subprocess.Popen(args, cwd=cwd, env=e, stdout=logf, stderr=subprocess.STDOUT,
                                               stdin=subprocess.DEVNULL, start_new_session=True,
                                               preexec_fn=apart)))
    results = {}
    deadline = start + limit + 30
    first_bad = None
    while len(results) < shards:
        for i, cwd, p in procs:
            if i in results:
                continue
            rc = p.poll()
            if rc is not None:
                log = open(os.path.join(cwd, "log"), errors="replace").read()
                results[i] = (classify(rc, log), rc, log, cwd)
                if results[i][0] == "violation" and first_bad is None:
                    first_bad = time.time()
        if len(results) == shards:
            break
        now = time.time()
        # One violation is enough: give the others a moment, then stop.
        if now > deadline or (first_bad is not None and now > first_bad + 2):
            for i, cwd, p in procs:
                if i not in results:
                    try:
                        os.killpg(p.pid, 9)
                    except ProcessLookupError:
                        pass
                    p.wait()
                    results[i] = ("stopped" if first_bad else "error", -9,
                                  open(os.path.join(cwd, "log"), errors="replace").read() + "\nstopped\n", cwd)
            break
        time.sleep(0.05)

    for i in results:
        p = os.path.join(results[i][3], "report.json.trail")
        if results[i][0] == "violation" and os.path.exists(p):
            kind, rc, log, cwd = results[i]
            if re.search(r"^(panic:|fatal error:|SIGSEGV|unexpected fault)", log, re.M):
                # The process crashed: tell what it did last.
                t = open(p, errors="replace").read()
                results[i] = (kind, rc, log + "\nThe case that crashed:\n" + t[-20000:], cwd)
    bad = sorted(i for i in results if results[i][0] == "violation")
    err = sorted(i for i in results if results[i][0] == "error")
    ev = merge(pid, tier, seed, c, results)
    ev["violations"] = (1 if bad else 0) + (1 if found else 0)
    if apart:
        ev["coverage"].setdefault("notes", []).append("Each process had a network of its own.")
    if searched:
        ev["coverage"].setdefault("notes", []).append(searched)
    ev["wall_s"] = round(time.time() - start, 3)
    if not bad and not err and ev["coverage"]["evaluations"] == 0:
        die("no test ran:\n" + results[0][2][-3000:])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    if bad:
        i = bad[0]
        rp = save_replay(pid, tier, seed, shards, i, results[i])
        print(excerpt(results[i][2]))
        print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
        return 1
    if found:
        return 1
    if err:
        i = err[0]
        print(results[i][2][-6000:])
        die("%s: shard %d gave no answer (exit %s)" % (pid, i, results[i][1]))
    for line in known_findings(pid):
        print(line)
    print("%s: ok, %d cases, %d distinct non-trivial, %.1f s%s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"],
        ", in networks of their own" if apart else ""))
    return 0


def fuzz(tmp, pid, c, binary):
    """Coverage-guided search, from generated seeds, with the oracles of the
    generated cases. -> what was done, and the replay file and log if an input
    fails, which it has to do again in the plain binary to count."""
    name, seconds = c["fuzz"]
    guided = build(c["pkg"], tmp, (*c.get("build", ()), "-fuzz", "^%s$" % name), "guided.test")
    cwd = os.path.join(tmp, "fuzz")
    os.mkdir(cwd)
    e = goenv()
    e.update(TMPDIR=cwd, GOMEMLIMIT="2500MiB")
    r = subprocess.run([guided, "-test.run", "XXX", "-test.fuzz", "^%s$" % name, "-test.fuzztime", "%ds" % seconds,
                        "-test.fuzzminimizetime", "20s", "-test.parallel", "8", "-test.fuzzcachedir", os.path.join(cwd, "cache")],
                       cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       stdin=subprocess.DEVNULL)
    execs = re.findall(r"execs: (\d+) .*new interesting: (\d+)", r.stdout)
    if not execs:
        die("the coverage-guided search of %s did not start:\n%s" % (pid, r.stdout[-6000:]))
    note = "Coverage-guided search %s: %s inputs in %d s, %s of them reached something new." % (
        name, execs[-1][0], seconds, execs[-1][1])
    inputs = os.path.join(cwd, "testdata", "fuzz", name)
    for f in sorted(os.listdir(inputs)) if os.path.isdir(inputs) else []:
        text = open(os.path.join(inputs, f)).read()
        kind, log = run_input(tmp, binary, name, text)
        if kind == "ok":
            note += " An input failed once and not again."
            continue
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s-%s.replay" % (pid, name, f))
        with open(path, "w") as out:
            out.write("#HX " + json.dumps(dict(property=pid, fuzz=name, input=text)) + "\n")
            for line in log[:20000].splitlines():
                out.write("#LOG " + line + "\n")
        return note, (path, log[:20000])
    return note, None


def run_input(tmp, binary, name, text):
    """Runs one input of a coverage-guided search. -> 'ok' or 'violation', log"""
    cwd = tempfile.mkdtemp(dir=tmp)
    d = os.path.join(cwd, "testdata", "fuzz", name)
    os.makedirs(d)
    with open(os.path.join(d, "input"), "w") as f:
        f.write(text)
    e = goenv()
    e.update(TMPDIR=cwd, GOTRACEBACK="all")
    r = subprocess.run([binary, "-test.v", "-test.timeout", "600s", "-test.run", "^%s$/^input$" % name], cwd=cwd, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                       stdin=subprocess.DEVNULL)
    return ("ok" if r.returncode == 0 else "violation"), r.stdout


def known_findings(pid):
    """The listed findings of a property; the checks exclude exactly these."""
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return []
    return [l.strip() for l in open(path) if l.startswith("KNOWN-FINDING: property=%s " % pid)]


def merge(pid, tier, seed, c, results):
    n = nt = 0
    hashes, classes, rules, samples, notes = set(), {}, [], [], []
    for i in sorted(results):
        p = os.path.join(results[i][3], "report.json")
        try:
            r = json.load(open(p))
        except (OSError, ValueError):
            continue
        n += r["evaluations"]
        nt += r["nontrivial"]
        hashes.update(r["hashes"] or [])
        for k, v in (r["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for x in r["rules"] or []:
            if x not in rules:
                rules.append(x)
        samples += r["samples"] or []
        for x in r["notes"] or []:
            if x not in notes:
                notes.append(x)
    cov = dict(evaluations=n, distinct_nontrivial=len(hashes), nontrivial=nt,
               rule=" | ".join(rules), samples=samples[:12], classes=dict(sorted(classes.items())))
    if notes:
        cov["notes"] = notes[:20]
    return dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
                assumptions=c.get("assumptions", []), wall_s=0)


def excerpt(log):
    for pat in ("WARNING: DATA RACE", r"\[rapid\] (failed|panic) after", r"\[rapid\] flaky", "HX-VIOLATION", "HX-HANG",
                r"^(panic:|fatal error:|SIGSEGV|unexpected fault)"):
        m = re.search(pat, log, re.M)
        if m:
            s = log[max(0, m.start() - 200):m.start() + 24000]
            k = log.find("\nThe case that crashed:\n")
            return s + (log[k:] if k >= 0 else "")
    return log[-5000:]


def save_replay(pid, tier, seed, shards, i, result):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    _, rc, log, cwd = result
    m = re.search(r"--- FAIL: (Test\w+)", log)
    test = m.group(1) if m else ""
    if not test:
        m = re.findall(r"=== RUN\s+(Test\w+)", log)
        test = m[-1] if m else ""
    fail = ""
    for root, _, files in os.walk(os.path.join(cwd, "testdata")):
        for f in files:
            if f.endswith(".fail"):
                fail = os.path.join(root, f)
    path = os.path.join(d, "%s-%s-seed%d-shard%d.replay" % (pid, test or "unknown", seed, i))
    head = dict(property=pid, test=test, tier=tier, seed=seed, shard=i, shards=shards,
                shrunk=bool(fail))
    with open(path, "w") as f:
        f.write("#HX " + json.dumps(head) + "\n")
        for line in excerpt(log).splitlines():
            f.write("#LOG " + line + "\n")
        if fail:
            f.write(open(fail, errors="replace").read().rstrip("\n") + "\n")
    return path


def replay(path):
    """Run just the recorded (shrunk) case, or else the recorded shard, again."""
    with open(path, errors="replace") as f:
        first = f.readline()
    if not first.startswith("#HX "):
        die("not a replay file")
    h = json.loads(first[4:])
    c = CHECKS[h["property"]]
    tmp = tempfile.mkdtemp(prefix="hx.")
    try:
        binary = build(c["pkg"], tmp, c.get("build", ()))
        if "fuzz" in h:
            kind, log = run_input(tmp, binary, h["fuzz"], h["input"])
            print(log[-8000:])
            if kind == "ok":
                print("replay passes")
                return 0
            print("VIOLATION property=%s replay=%s" % (h["property"], os.path.abspath(path)))
            return 1
        e = goenv()
        e.update(HX_TIER=h["tier"], HX_SEED=str(h["seed"]), HX_SHARD=str(h["shard"]),
                 HX_SHARDS=str(h["shards"]), TMPDIR=tmp, GOTRACEBACK="all", GORACE=GORACE,
                 HX_SCALE=str(c.get("scale", 1)),
                 HX_REPLAY="1" if h["shrunk"] else "0", GOMAXPROCS=str(c.get("procs", 2)))
        args = [binary, "-test.v", "-test.timeout", "600s",
                "-test.run", "^%s$" % (h["test"] or "Test" + h["property"] + ".*")]
        if h["shrunk"]:
            args.append("-rapid.failfile=" + os.path.abspath(path))
        r = subprocess.run(args, cwd=tmp, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", stdin=subprocess.DEVNULL, preexec_fn=isolation(c))
        kind = classify(r.returncode, r.stdout)
        print(r.stdout[-8000:])
        if kind == "violation":
            print("VIOLATION property=%s replay=%s" % (h["property"], os.path.abspath(path)))
            return 1
        if kind == "error":
            die("replay gave no answer")
        print("replay passes")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
