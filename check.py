#!/usr/bin/env python3
"""Run one property's monitors against the current tree of /repo.

  check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE] [--scale X]

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken (the replay file holds the witness).
Exit 3: the machinery could not decide (build failure, nothing observed, checker gave up).
VERIF_REPO points the check at another tree (development only).
"""
import argparse, glob, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.path.abspath(os.environ.get("VERIF_REPO", "/repo"))
HARNESS = os.path.join(HERE, "harness")
EVID = os.path.join(HERE, "evidence")
KNOWN = os.path.join(HERE, "known_findings.txt")
LIB = "github.com/henderiw/idxtable/pkg"

# What is executed per property: (build, environment, extra arguments). Every build is of REPO's working tree.
#   plain: as is; shim: sync replaced by the instrumented stand-in (harness/verifsync); race: shim plus race detector
PLAIN = [("plain", {}, [])]
PLANS = {
    "C05": [("shim", {"VERIF_SHIM_CHAOS": "1"}, []), ("plain", {}, [])],
    "C11": [("shim", {"VERIF_SHIM_CHAOS": "1"}, []), ("plain", {}, [])],
    "C19": [("shim", {"VERIF_SHIM_CHAOS": "1"}, []), ("plain", {}, [])],
    "C06": [("race", {}, []), ("race", {"VERIF_SHIM_CHAOS": "1"}, [])],
    "C29": [("race", {}, []), ("race", {"VERIF_SHIM_CHAOS": "1"}, [])],
    "C07": [("shim", {"VERIF_SHIM_TRACK": "1"}, []), ("shim", {"VERIF_SHIM_TRACK": "1", "VERIF_SHIM_CHAOS": "1"}, []), ("plain", {}, [])],
}

# Build tags to try in turn. noapi16: the tree has no Add16 and Sub16; nomax: it has no NewTableMax.
TAGS = ["", "noapi16", "nomax", "noapi16,nomax"]

# Case counts of the quick tier relative to the numbers in the monitors, for half a minute or so per check.
QUICK_SCALE = {"C01": 12, "C02": 12, "C03": 8, "C04": 12, "C15": 8, "C16": 8, "C17": 8, "C21": 10, "C22": 10, "C23": 8, "C24": 12, "C26": 12, "C27": 4, "C28": 12, "C29": 6, "C30": 8, "C05": 2, "C06": 2, "C07": 2, "C08": 1, "C11": 2, "C12": 2, "C19": 2, "C20": 1}


def goenv():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOSUMDB="off", GOFLAGS="-mod=readonly -buildvcs=false",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
    e.pop("GORACE", None)
    return e


class Builder:
    def __init__(self, tmp):
        self.tmp, self.done, self.env, self.notes = tmp, {}, goenv(), []
        self.mod = []
        if REPO != "/repo":
            src = open(os.path.join(HARNESS, "go.mod")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(tmp, "go.mod"), "w").write(src)
            shutil.copy(os.path.join(HARNESS, "go.sum"), tmp)
            self.mod = ["-modfile=" + os.path.join(tmp, "go.mod")]

    def go(self, *args):
        return subprocess.run(["go", *args], cwd=HARNESS, env=self.env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)

    def overlays(self):
        """The overlays to try: with a possible switch before every statement, then with those around locks only."""
        if "overlays" not in self.done:
            self.done["overlays"] = []
            tool = os.path.join(self.tmp, "instrument")
            p = self.go("build", *self.mod, "-o", tool, "./instrument")
            if p.returncode:
                die("instrument does not build:\n" + p.stdout)
            for how in (["points"], []):
                d = os.path.join(self.tmp, "ovl%d" % len(how))
                os.mkdir(d)
                p = subprocess.run([tool, REPO, d, *how], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    self.done["overlays"].append(os.path.join(d, "overlay.json"))
                else:
                    self.notes.append("instrumentation failed: " + p.stdout[-300:])
        return self.done["overlays"]

    def build(self, kind):
        """Returns (binary, kind actually built)."""
        if kind in self.done:
            return self.done[kind]
        out = os.path.join(self.tmp, "vmon-" + kind)
        race = ["-race"] if kind.startswith("race") else []
        res = None
        if kind in ("shim", "race"):
            for o in self.overlays():
                for tags in ("shim," + t for t in TAGS):
                    p = self.go("build", *self.mod, *race, "-overlay", o, "-tags", tags, "-o", out, "./vmon")
                    if p.returncode == 0:
                        res = (out, kind)
                        break
                if res:
                    break
                # e.g. the tree uses something of sync the stand-in lacks: decide with less or no instrumentation
                self.notes.append("an instrumented build failed, monitors ran with less instrumentation: " + p.stdout[-300:])
        if res is None:
            for tags in TAGS:
                p = self.go("build", *self.mod, *race, "-tags", tags, "-o", out, "./vmon")
                if p.returncode == 0:
                    break
            else:
                die("the tree does not build with the monitors:\n" + p.stdout[-4000:])
            res = (out, kind if kind == "plain" else kind + "-noshim")
        self.done[kind] = res
        return res


def die(msg):
    print(msg)
    sys.exit(3)


def limits(as_bytes):
    def f():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if as_bytes:
            resource.setrlimit(resource.RLIMIT_AS, (as_bytes, as_bytes))
        os.setpgrp()
    return f


def run(binary, args, env, tmo, as_bytes, logf):
    e = dict(os.environ)
    e.update(env)
    e["GOTRACEBACK"] = "all"
    with open(logf, "wb") as lf:
        p = subprocess.Popen([binary, *args], env=e, stdout=lf, stderr=subprocess.STDOUT, preexec_fn=limits(as_bytes))
        stop = threading.Event()
        why = []

        def rss():  # memory explosion guard where address space cannot be limited
            while not stop.wait(0.2):
                try:
                    n = int(open(f"/proc/{p.pid}/statm").read().split()[1]) * 4096
                    if n > 12 << 30:
                        why.append("memory")
                        os.killpg(p.pid, signal.SIGKILL)
                        return
                except Exception:
                    return
        t = threading.Thread(target=rss, daemon=True)
        t.start()
        try:
            p.wait(tmo)
        except subprocess.TimeoutExpired:
            why.append("timeout")
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        stop.set()
    try:
        os.killpg(p.pid, signal.SIGKILL)  # leave no child behind
    except (ProcessLookupError, PermissionError):
        pass
    return p.returncode, (why[0] if why else None)


FRAME = re.compile(r"^\s+(\S+)\(.*\)$|^\s+(\S+)\(\)$", re.M)


def race_reports(prefix):
    """Distinct race reports that involve the library: key = the set of innermost library functions of both accesses."""
    out = {}
    total = 0
    for f in sorted(glob.glob(prefix + ".*")):
        for blk in open(f, errors="replace").read().split("=================="):
            if "WARNING: DATA RACE" not in blk:
                continue
            total += 1
            fr = []
            for acc in re.split(r"\n\n", blk):
                head = acc.strip().split("\n")[0]
                if "read at" in acc.lower() or "write at" in acc.lower():
                    libf = [l.strip().split("(")[0] if not l.strip().startswith("github") else re.sub(r"\(\)$", "", l.strip())
                            for l in acc.split("\n") if LIB in l and not l.strip().startswith("/")]
                    if libf:
                        fr.append(re.sub(r"\[.*?\]", "", libf[0].replace(LIB, "pkg")))
            if fr:
                k = " <-> ".join(sorted(set(fr)))
                out.setdefault(k, [0, blk])[0] += 1
    return total, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--scale", help="multiply the case counts (default: 1, in the quick tier see QUICK_SCALE)")
    ap.add_argument("--replay")
    ap.add_argument("--section", default="")
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(a.seed)
    except ValueError:
        seed = sum(ord(c) * 131 ** i for i, c in enumerate(a.seed)) % (1 << 31)
    prop = a.prop
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        code = decide(prop, tier, seed, a, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def load_known(prop):
    keys = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                keys[m.group(2)] = m.group(3)
    return keys


def decide(prop, tier, seed, a, tmp, t0):
    os.makedirs(EVID, exist_ok=True)
    evf = os.path.join(EVID, prop + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    b = Builder(tmp)
    viol, incon, runs = [], [], []
    tot = dict(evaluations=0, distinct=0, samples=[], counters={}, rule="", assumptions=[])
    plan = PLANS.get(prop, PLAIN)
    scale = a.scale or str(QUICK_SCALE.get(prop, 4) if tier == "quick" else 1)
    extra = []
    if a.replay:
        w = json.load(open(a.replay))
        extra = ["-section", w["section"], "-index", str(w["index"])]
        seed = w["seed"]
        plan = [p for p in plan if p[0] == w.get("build", p[0])] or plan
    if a.section:
        extra = ["-section", a.section]
    budget = 780 if tier == "quick" else 4 * 3600
    for n, (kind, env, args) in enumerate(plan):
        binary, built = b.build(kind)
        out, log = os.path.join(tmp, "out%d.json" % n), os.path.join(tmp, "log%d" % n)
        env = dict(env)
        race = built.startswith("race")
        if race:
            env["GORACE"] = "halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0 log_path=" + os.path.join(tmp, "race%d" % n)
        left = budget - (time.time() - t0)
        rc, why = run(binary, ["-prop", prop, "-tier", tier, "-seed", str(seed), "-scale", scale, "-out", out, *extra, *args],
                      env, max(left, 5), 0 if race else 8 << 30, log)
        txt = open(log, errors="replace").read()
        info = dict(build=built, env={k: v for k, v in env.items() if k.startswith("VERIF")}, exit=rc)
        runs.append(info)
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                pass
        if res:
            for v in res["violations"] or []:
                v["build"] = kind
                viol.append(v)
            incon += res["inconclusive"] or []
            tot["evaluations"] += res["evaluations"]
            tot["distinct"] += res["distinct_nontrivial"]
            tot["rule"] = tot["rule"] or res["rule"]
            tot["samples"] += (res["samples"] or [])[: max(1, 4 - len(tot["samples"]))]
            tot["assumptions"] = res["assumptions"] or tot["assumptions"]
            for k, c in (res["counters"] or {}).items():
                tot["counters"][k] = tot["counters"].get(k, 0) + c
            info.update(evaluations=res["evaluations"], wall_s=res["wall_s"])
        if race:
            total, reps = race_reports(os.path.join(tmp, "race%d" % n))
            tot["counters"]["race_reports"] = tot["counters"].get("race_reports", 0) + total
            for k, (cnt, blk) in sorted(reps.items()):
                viol.append(dict(section="race-detector", index=-1, seed=seed, build=kind, key=prop + "/race:" + k.replace(" ", ""),
                                 msg="data race between " + k + " (%d reports)" % cnt, stack=blk[:12000]))
        if why == "memory":
            viol.append(dict(section="crash", index=-1, seed=seed, build=kind, key=prop + "/memory", msg="the workload, which holds a few MB, grew beyond 12 GB", stack=txt[-4000:]))
        elif why == "timeout":
            incon.append("%s run did not finish within its %d s" % (built, left))
        elif res is None or rc != 0:
            m = re.search(r"^(fatal error: .*|panic: .*|runtime: out of memory.*|.*stack exceeds.*limit.*|SIGSEGV.*|unexpected fault address.*)$", txt, re.M)
            if m or rc < 0:
                at = m.start() if m else max(0, len(txt) - 8000)
                g = txt[at:at + 16000]
                inlib = LIB in txt[at:]
                head = m.group(1) if m else "killed by signal %d" % -rc
                if inlib or "out of memory" in head or "cannot allocate" in head:
                    viol.append(dict(section="crash", index=-1, seed=seed, build=kind, key=prop + "/crash", msg="the process crashed: " + head, stack=g))
                else:
                    incon.append("the monitor itself crashed: " + head + "\n" + g[:3000])
            else:
                incon.append("run ended with %s and no result: %s" % (rc, txt[-2000:]))
        if viol and not all(v["key"] in load_known(prop) for v in viol):
            break
    known = load_known(prop)
    shown, fresh = set(), []
    for v in viol:
        if v["key"] in known:
            if v["key"] not in shown:
                shown.add(v["key"])
                print("KNOWN-FINDING: property=%s %s (%s)" % (prop, known[v["key"]], v["key"]))
        else:
            fresh.append(v)
    if b.notes:
        tot["assumptions"] = (tot["assumptions"] or []) + b.notes
    cov = dict(evaluations=tot["evaluations"], distinct_nontrivial=tot["distinct"], rule=tot["rule"], samples=tot["samples"],
               observed=tot["counters"], runs=runs)
    if incon:
        cov["inconclusive"] = incon[:20]
    if shown:
        cov["known_findings_reproduced"] = sorted(shown)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=tot["assumptions"] or [],
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    with open(evf, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if fresh:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            p = os.path.join("evidence", "replay", "%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9]+", "_", v["key"])[:60]))
            v["how_to_replay"] = "cd /verif && python3 check.py %s --tier %s --replay %s" % (prop, tier, p)
            with open(os.path.join(HERE, p), "w") as f:
                json.dump(v, f, indent=1)
            print("%s: %s" % (v["key"], v["msg"][:600]))
            for s in (v.get("trace") or [])[-12:]:
                print("    " + s[:300])
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if tot["evaluations"] == 0 or tot["distinct"] == 0 or incon:
        print("INCONCLUSIVE property=%s: %s" % (prop, "; ".join(incon)[:3000] or "nothing was observed"))
        return 3
    print("held on %d executions (%d distinct non-trivial), %.1f s" % (tot["evaluations"], tot["distinct"], time.time() - t0))
    return 0


if __name__ == "__main__":
    main()
