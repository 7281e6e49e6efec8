#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE]

Decides one property: the models of the property are checked with TLC, calls are made on
the code of /repo and recorded, and TLC validates the recorded traces against the
specification.  Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Any other
exit: no verdict.
"""
import concurrent.futures, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(HERE, "spec")
OUT = os.path.join(HERE, "out")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
T0 = time.time()

# Models checked for each property: module, configuration for quick and thorough (None: not run).
MODELS = json.load(open(os.path.join(HERE, "bin", "models.json")))


TEXTS = {"t", "p", "txt", "r", "in", "sl", "slice", "cut", "after", "l", "ft", "cs", "words", "parts", "ws", "rs", "st", "str",
         "sep", "ps", "pos", "jp", "zht", "zhs", "allow", "hs"}


def decode(v, chars, key=""):
    """an event with its texts readable"""
    if isinstance(v, dict):
        return {k: decode(x, chars, k) for k, x in v.items()}
    if isinstance(v, list):
        if key in TEXTS and all(isinstance(x, int) for x in v):
            return bytes(b for c in v for b in chars[c - 1]["by"]).decode("utf8", "backslashreplace") if v else ""
        return [decode(x, chars, key) for x in v]
    return v


class NoVerdict(Exception):
    pass


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def env():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOTRACEBACK="all")
    e.setdefault("HOME", "/root")
    e["PATH"] = "/usr/local/go/bin:" + e.get("PATH", "/usr/bin:/bin")
    return e


def run(cmd, cwd=None, timeout=600, ev=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, env=ev or env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, errors="replace")
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), "timeout"


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="gse-%s-" % prop)
        self.states = self.trans = 0
        self.sessions = self.accepted = self.events = 0
        self.models, self.samples, self.kinds = [], [], {}
        self.known, self.violations = {}, []
        self.race = prop in ("C24", "C25", "C26")
        self.nrun = 0
        self.lock = threading.Lock()
        self.failed = None

    # ---------------------------------------------------------------- build
    def build(self):
        h = os.path.join(self.work, "harness")
        shutil.copytree(os.path.join(HERE, "harness"), h)
        self.drv = os.path.join(self.work, "drv")
        flags = ["-race"] if self.race else []
        rc, o, e = run(["go", "build", "-tags", "ne"] + flags + ["-o", self.drv, "./drv"], cwd=h, timeout=500)
        if rc:
            raise NoVerdict("the driver does not build:\n" + o + e)
        self.srv = ""
        if self.prop == "C26":
            self.srv = os.path.join(self.work, "server")
            rc, o, e = run(["go", "build", "-race", "-tags", "ne", "-o", self.srv, "./tools/server"], cwd=REPO, timeout=500)
            if rc:
                raise NoVerdict("the server does not build:\n" + o + e)
        log("built")

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, d, workers=8, timeout=700, java=("-Xmx10g",)):
        cf = os.path.join(d, "run.cfg")
        open(cf, "w").write(cfg)
        cmd = ["java", "-Xss64m", *java, "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-config", cf,
               "-workers", str(workers), "-metadir", tempfile.mkdtemp(prefix="meta", dir=d), module + ".tla"]
        rc, o, e = run(cmd, cwd=d, timeout=timeout)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", o.replace(",", "") if False else o)
        if m:
            with self.lock:
                self.trans += int(m[-1][0])
                self.states += int(m[-1][1])
        return rc, o + e

    def specdir(self, d):
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)

    def model(self, m):
        """check a model; -> its output"""
        d = tempfile.mkdtemp(dir=self.work)
        self.specdir(d)
        if m.get("alphabet"):
            rc, o, e = run([self.drv, "-alphabet", m["alphabet"], "-o", os.path.join(d, "alpha.json"), "-dir", d,
                            "-emit", os.path.join(HERE, "data", "emit.json")], timeout=60)
            if rc:                       # a call of it died or did not return: the sessions may still find that
                self.failed = "alphabet %s: %s" % (m["alphabet"], self.dead(rc, e) or (o + e)[-2000:])
                log(self.failed)
                return None
        L = m["L"].get(self.tier, m["L"]["quick"])
        cfg = ["SPECIFICATION " + m.get("spec", "Spec"), "CHECK_DEADLOCK FALSE"]
        cfg += ["INVARIANT " + i for i in m.get("inv", [])] + ["PROPERTY " + i for i in m.get("prop", [])]
        cfg += ["VIEW View"] if m.get("view") else []
        cfg += ["CONSTANTS", "  L = %d" % L]
        if m.get("alphabet"):
            cfg += ["  CT <- TrCT", "  XP <- TrXP", '  FILE = "alpha.json"', "  PRINT = " + ("TRUE" if m.get("cap") else "FALSE")]
        cfg += ["  " + c for c in m.get("const", [])]
        s0, t0 = self.states, time.time()
        rc, o = self.tlc(m["module"], "\n".join(cfg) + "\n", d, timeout=m.get("timeout", 600))
        if m.get("bad"):                 # a model with a planted fault: it must be found
            if "is violated" not in o:
                raise NoVerdict("model %s: the fault is not found\n%s" % (m["module"], o[-4000:]))
        elif rc != 0 or "No error has been found" not in o:
            if not m.get("alphabet"):
                raise NoVerdict("model %s:\n%s" % (m["module"], o[-4000:]))
            # the alphabet is made by calls of the code: the sessions may still find what is wrong with it
            self.failed = "model %s:\n%s" % (m["module"], o[-4000:])
            log("model", m["module"], "failed")
            return None
        name = m["module"] + (" " + m["alphabet"] if m.get("alphabet") else "") + (" " + m["bad"] if m.get("bad") else "")
        self.models.append({"model": name, "depth": L, "states": self.states - s0})
        log("model", name, "depth", L, self.states - s0, "states", "%.1fs" % (time.time() - t0))
        shutil.rmtree(d)
        return o

    def check_models(self):
        for m in MODELS.get(self.prop, []):
            if not m.get("cap"):
                self.model(m)

    # ---------------------------------------------------------------- histories from the specification
    def generate(self):
        """behaviours of the models, to be replayed into the code: files of sessions"""
        for m in MODELS.get(self.prop, []):
            if not m.get("cap"):
                continue
            o = self.model(m)
            if o is None:
                continue
            hs = [json.loads("[" + h + "]") for h in re.findall(r'<<"H", <<([0-9, ]*)>>>>', o)]
            total = len(hs)
            hs.sort()
            cap = m["cap"][self.tier]
            if total > cap:
                hs = random.Random(self.seed).sample(hs, cap)
            self.models[-1].update(behaviours=total, replayed=len(hs))
            log(total, "behaviours,", len(hs), "replayed")
            hf = os.path.join(self.work, "hist-%s.json" % m["alphabet"])
            json.dump({"alphabet": m["alphabet"], "hist": hs}, open(hf, "w"))
            yield hf

    # ---------------------------------------------------------------- driver
    def drive(self, d, args, timeout=600):
        s = os.path.join(d, "scratch")
        os.makedirs(s, exist_ok=True)
        cmd = [self.drv, "-prop", self.prop, "-seed", str(self.seed), "-tier", self.tier, "-o", os.path.join(d, "trace.json"),
               "-ops", os.path.join(d, "ops.json"), "-dir", s, "-emit", os.path.join(HERE, "data", "emit.json")] + args
        if self.srv:
            cmd += ["-server", self.srv]
        ev = env()
        if self.race:
            ev["GORACE"] = "halt_on_error=0 exitcode=0 history_size=3"
        rc, o, e = run(cmd, cwd=d, timeout=timeout, ev=ev)
        return rc, o, e

    @staticmethod
    def dead(rc, e):
        """the process died in the code under test"""
        if rc in (0, 3, 124):
            return None
        m = re.search(r"^(fatal error: .*|panic: .*|runtime: goroutine stack exceeds.*|SIG[A-Z]+: .*)$", e, re.M)
        if not m or "harness:" in m.group(1) or "out of memory" in e:
            return None
        if "/repo/" not in e:
            return None
        return m.group(1)

    # ---------------------------------------------------------------- validation
    def validate(self, d, timeout=700):
        """-> accepted session numbers, rejected {session: event}, known [(name, session, event)]"""
        mod, cfg = "GseTrace", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", "  CT <- TrCT", "  XP <- TrXP",
                                "  ENG <- TrEng", "  PM <- TrPM", '  FOCUS = "%s"' % self.prop, '  FILE = "trace.json"']
        if self.prop == "C25":
            mod, cfg = "ModelTrace", ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE", "CONSTANTS", "  CT <- TrCT", '  FILE = "trace.json"']
        if self.prop == "C26":
            mod = "ServerTrace"
            cfg = [c for c in cfg if not any(n in c for n in ("FOCUS", "ENG", "PM"))] + ["VIEW View"]
        # the sessions are dealt to TLC processes of one worker each (a trace is read once per worker)
        tr = json.load(open(os.path.join(d, "trace.json")))
        sess = tr.pop("sessions")
        size = {k: len(json.dumps(x)) for k, x in enumerate(sess, 1)}
        parts = [[] for _ in range(min(8, len(sess)))]
        for k in sorted(size, key=lambda k: -size[k]):
            min(parts, key=lambda p: sum(size[q] for q in p)).append(k)

        def part(ks):
            pd = tempfile.mkdtemp(prefix="part", dir=d)
            self.specdir(pd)
            json.dump(dict(tr, sessions=[sess[k - 1] for k in ks]), open(os.path.join(pd, "trace.json"), "w"))
            return self.tlc(mod, "\n".join(cfg) + "\n", pd, workers=1, timeout=timeout,
                            java=("-Xmx%dm" % (24000 // len(parts)), "-XX:ParallelGCThreads=2", "-XX:CICompilerCount=3"))
        acc, rej, known, errs = set(), {}, [], []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for ks, (rc, o) in zip(parts, ex.map(part, parts)):
                acc |= {ks[int(x) - 1] for x in re.findall(r'<<"ACCEPT", (\d+)>>', o)}
                rj = {int(a): int(b) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', o)}
                known += [(a, ks[int(b) - 1], int(c)) for a, b, c in re.findall(r'<<"KNOWN", "([^"]+)", (\d+), (\d+)>>', o)]
                if rc != 0 or "No error has been found" not in o:
                    rj = rj or self.undefined(o)
                    errs.append(o)
                rej.update({ks[a - 1]: b for a, b in rj.items()})
        if errs:
            if not rej:
                raise NoVerdict("trace validation failed:\n" + errs[0][-5000:])
            log("TLC ended with an error after a rejection:\n" + "\n".join(errs[0].splitlines()[-12:]))
        elif self.race and self.prop != "C24":       # no moments explain the trace
            rej.update({k: 0 for k in size if k not in acc and k not in rej})
        return acc, rej, known

    @staticmethod
    def undefined(o):
        """the step of a session whose record has no meaning in the specification (a text of no
        characters where it asks for one, a number where it asks for a list): it is rejected"""
        if re.search(r"[Oo]verflow|OutOfMemory|heap space|timeout", o) or "while evaluating" not in o and "was evaluating" not in o:
            return {}
        s, i = re.findall(r"^/\\ sid = (\d+)", o, re.M), re.findall(r"^/\\ i = (\d+)", o, re.M)
        return {int(s[-1]): int(i[-1])} if s and i else {}

    def batch(self, args, label):
        d = tempfile.mkdtemp(dir=self.work)
        rc, o, e = self.drive(d, args)
        ops = os.path.join(d, "ops.json")
        if rc:
            why = self.dead(rc, e)
            if why:
                n = self.last_session(d)
                log("the process died:", why)
                self.confirm_dead(ops, n, why, args)
                return
            raise NoVerdict("driver: exit %d\n%s\n%s" % (rc, o[-2000:], e[-4000:]))
        tr = json.load(open(os.path.join(d, "trace.json")))
        n = len(tr["sessions"])
        log(label, o.strip())
        races = self.races(e)
        if races:
            log("data race:\n" + races[0][:3000])
        acc, rej, known = self.validate(d)
        missing = [k for k in range(1, n + 1) if k not in acc and k not in rej]
        log(label, "accepted", len(acc), "rejected", len(rej), "of", n)
        self.sessions += n
        self.accepted += len(acc)
        for k, s in enumerate(tr["sessions"]):
            self.events += len(s["ev"])
            self.kinds[s["kind"]] = self.kinds.get(s["kind"], 0) + 1
            if len(self.samples) < 4 and k % 37 == 5:
                self.samples.append({"session": k + 1, "kind": s["kind"], "calls": [x.get("op") for x in s["ev"]][:40],
                                     "last": decode(s["ev"][-1], tr["chars"]) if s["ev"] else None})
        for name, a, b in known:
            self.known.setdefault(name, []).append((a, b))
        if races:
            self.confirm_race(ops, args, races[0])
        sess = json.load(open(ops))
        for k in sorted(rej, key=lambda x: rej[x])[:6]:
            ev = tr["sessions"][k - 1]["ev"][rej[k] - 1] if rej[k] else {}
            log("rejected: session %d event %d: %s" % (k, rej[k], json.dumps(decode(ev, tr["chars"]), ensure_ascii=False)[:1500]))
            if self.confirm(sess[k - 1], ev):
                break
        if not self.violations:
            if rej and not self.confirm_all(sess, args, rej):
                raise NoVerdict("a rejected trace could not be reproduced")
            if missing:
                raise NoVerdict("sessions %s were neither accepted nor rejected" % missing[:10])
        shutil.rmtree(d, ignore_errors=True)

    def last_session(self, d):
        try:
            return int(open(os.path.join(d, "scratch", "progress")).read())
        except (OSError, ValueError):
            return None

    def races(self, e):
        if not self.race:
            return []
        out = re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", e, re.S)
        return [r for r in out if "/repo/" in r]

    def save(self, session, what, ev=None):
        os.makedirs(OUT, exist_ok=True)
        f = os.path.join(OUT, "%s-%s-%d-%d.json" % (self.prop, self.tier, self.seed, len(self.violations)))
        json.dump({"property": self.prop, "what": what, "event": ev,
                   "sessions": session if isinstance(session, list) else [session] if session else []}, open(f, "w"))
        return f

    def report(self, session, what, ev=None):
        f = self.save(session, what, ev)
        self.violations.append(f)
        print("VIOLATION property=%s replay=%s" % (self.prop, f), flush=True)
        log(what)

    def confirm(self, session, ev):
        """run the session again on the code, and validate again"""
        for n in range(6 if self.race else 3):
            d = tempfile.mkdtemp(dir=self.work)
            json.dump([session] * (10 if self.race else 1), open(os.path.join(d, "in.json"), "w"))
            rc, o, e = self.drive(d, ["-in", os.path.join(d, "in.json")])
            if rc:
                if self.dead(rc, e):
                    self.report(session, "the process died: " + self.dead(rc, e))
                    return True
                continue
            if self.races(e):
                self.report(session, "data race:\n" + self.races(e)[0][:3000])
                return True
            acc, rej, known = self.validate(d)
            if rej:
                tr = json.load(open(os.path.join(d, "trace.json")))
                k = min(rej)
                ev = tr["sessions"][k - 1]["ev"][rej[k] - 1] if rej[k] else {}
                ev = decode(ev, tr["chars"])
                self.report(session, "rejected again: " + json.dumps(ev, ensure_ascii=False)[:1500], ev)
                return True
        return False

    def confirm_all(self, sess, args, rej):
        """a session that is rejected only after the others (state of the package): all again"""
        for _ in range(2):
            d = tempfile.mkdtemp(dir=self.work)
            rc, o, e = self.drive(d, args)
            if rc:
                continue
            again = {k: i for k, i in self.validate(d)[1].items() if k in rej}
            if again:
                tr = json.load(open(os.path.join(d, "trace.json")))
                k = min(again)
                ev = decode(tr["sessions"][k - 1]["ev"][again[k] - 1], tr["chars"]) if again[k] else {}
                self.report(sess[:k], "rejected again, behind the sessions before: " + json.dumps(ev, ensure_ascii=False)[:1500], ev)
                return True
        return False

    def confirm_dead(self, ops, n, why, args):
        sess = json.load(open(ops))
        if n is None or n >= len(sess):
            n = 0
        for k in range(8 if self.race else 4):
            d = tempfile.mkdtemp(dir=self.work)
            json.dump([sess[n]] * (10 if self.race else 1), open(os.path.join(d, "in.json"), "w"))
            rc, o, e = self.drive(d, ["-in", os.path.join(d, "in.json")] if k % 2 == 0 or not self.race else args)
            w = self.dead(rc, e)
            if w or self.races(e):
                self.report(sess[n], "the process died: " + why + "\nand again:\n" + (w or self.races(e)[0])[:1500])
                return
            if rc == 0 and not self.race and self.validate(d)[1]:
                self.report(sess[n], "rejected")
                return
        raise NoVerdict("the process died, but not again: " + why)

    def confirm_race(self, ops, args, first):
        for _ in range(8):
            d = tempfile.mkdtemp(dir=self.work)
            rc, o, e = self.drive(d, args)
            r = self.races(e)
            if r or self.dead(rc, e):
                self.report(None, "data race, seen again:\n" + (r or [e])[0][:3000])
                return
        raise NoVerdict("a data race was seen once, but not again:\n" + first)

    # ---------------------------------------------------------------- findings and evidence
    def findings(self):
        f = os.path.join(HERE, "known-findings.txt")
        out = {}
        for l in open(f):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", l)
            if m and m.group(1) == self.prop:
                out[m.group(2)] = m.group(3)
        return out

    def evidence(self):
        level = "model_checking"
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.accepted,
               "trace_events": self.events, "session_kinds": self.kinds, "models": self.models, "samples": self.samples}
        json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                   "assumptions": ["TLC and the Java runtime", "the driver's record of calls and results (harness/drv)",
                                   "Go's unicode tables, from which the driver takes the character classes"],
                   "wall_s": round(time.time() - T0, 1), "violations": len(self.violations)},
                  open(os.path.join(HERE, "evidence", self.prop + ".json"), "w"), indent=1)

    def main(self):
        self.build()
        self.check_models()
        for hf in self.generate():
            self.batch(["-hist", hf], "behaviours")
            if self.violations:
                break
        if not self.violations:
            self.batch([], "sessions")
        if not self.violations and self.accepted == 0:
            raise NoVerdict("no session was validated")
        if self.failed and not self.violations:
            raise NoVerdict(self.failed)
        listed = self.findings()
        for k, v in self.known.items():
            if k in listed:
                print("KNOWN-FINDING: property=%s %s (%d times; first in session %d, event %d)" % (self.prop, listed[k], len(v), *v[0]))
            else:
                raise NoVerdict("a known finding that is not listed: " + k)
        self.evidence()
        return 1 if self.violations else 0

    def replay(self, file):
        r = json.load(open(file))
        self.build()
        d = tempfile.mkdtemp(dir=self.work)
        json.dump(r["sessions"], open(os.path.join(d, "in.json"), "w"))
        rc, o, e = self.drive(d, ["-in", os.path.join(d, "in.json")])
        print(o, e[-3000:])
        if rc == 0:
            print("accepted, rejected, known:", self.validate(d))
        return rc


def main():
    prop = sys.argv[1]
    c = Check(prop, os.environ.get("VERIF_TIER", "quick"), int(os.environ.get("VERIF_SEED", "1")))
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            return c.replay(sys.argv[3])
        return c.main()
    except NoVerdict as x:
        print("NO VERDICT:", x, flush=True)
        return 1 if c.violations else 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            log("kept", c.work)
        else:
            shutil.rmtree(c.work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
