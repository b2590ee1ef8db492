"""Property-based testing engine.

Every random decision of a case is drawn from a `Src`, a choice sequence.  In
search mode the sequence is produced by a PRNG seeded with
(VERIF_SEED, property, tier, case number) and recorded; while shrinking and
replaying, the recorded (possibly edited) sequence is played back and exhausted
sequences yield 0, the simplest choice.  A case is therefore a pure function of
its choice list.
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

import build

VERIF = build.VERIF
EXIT_OK = {0, 64, 65, 70, 78}


class Src:
    __slots__ = ("rng", "given", "pos", "rec", "limit")

    def __init__(self, rng=None, given=None, limit=200000):
        self.rng = rng
        self.given = given
        self.pos = 0
        self.rec = []
        self.limit = limit

    def below(self, n):
        """integer in [0, n)"""
        if n <= 1:
            return 0
        if self.given is not None:
            v = self.given[self.pos] if self.pos < len(self.given) else 0
            self.pos += 1
            if v >= n:
                v = v % n
        else:
            if len(self.rec) > self.limit:
                v = 0
            else:
                v = int(self.rng.random() * n)
        self.rec.append(v)
        return v

    def rng_int(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, pct):
        """True in pct% of the cases; False is the simple choice."""
        if pct <= 0:
            return False
        if pct >= 100:
            return True
        return self.below(100) >= 100 - pct

    def pick(self, seq):
        return seq[self.below(len(seq))]

    def wpick(self, pairs):
        """pairs: [(weight, value)]"""
        tot = 0
        for w, _ in pairs:
            tot += w
        x = self.below(tot)
        for w, v in pairs:
            if x < w:
                return v
            x -= w
        return pairs[-1][1]

    def sample(self, seq, k):
        s = list(seq)
        out = []
        for _ in range(min(k, len(s))):
            out.append(s.pop(self.below(len(s))))
        return out

    def subset(self, seq, pct=50):
        return [x for x in seq if self.chance(pct)]

    def shuffle(self, seq):
        s = list(seq)
        for i in range(len(s) - 1):
            j = i + self.below(len(s) - i)
            s[i], s[j] = s[j], s[i]
        return s

    def many(self, lo, hi, pct=70):
        """yields indices; between lo and hi items, each further one with pct%"""
        i = 0
        while i < hi:
            if i >= lo and not self.chance(pct):
                return
            yield i
            i += 1


class Run:
    __slots__ = ("argv", "files", "root", "rc", "sig", "out", "err", "cpu", "flavour", "cwdname", "tty")

    def describe(self):
        return "exit %s%s" % (self.rc, " signal %d" % self.sig if self.sig else "")


class ZygoteDied(Exception):
    pass


class Exec:
    """Runs selint on generated file trees."""

    def __init__(self, flavours=("plain",), cpu=20):
        self.bin = {f: build.build(f) for f in flavours}
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="selint-verif-", dir=base)
        self.proc = {}
        self.cpu = cpu
        self.n = 0
        self.log = None
        self.runs = 0

    def close(self):
        for p, r, _ in self.proc.values():
            try:
                p.stdin.close()
                p.wait(timeout=5)
            except Exception:
                p.kill()
            os.close(r)
        self.proc = {}
        shutil.rmtree(self.dir, ignore_errors=True)

    def _zyg(self, flavour):
        z = self.proc.get(flavour)
        if z:
            return z
        if flavour not in self.bin:
            self.bin[flavour] = build.build(flavour)
        od = os.path.join(self.dir, "io-" + flavour)
        os.makedirs(od, exist_ok=True)
        r, w = os.pipe()
        env = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "LC_ALL": "C", "HOME": self.dir,
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                               "handle_abort=1:detect_stack_use_after_return=0:symbolize=%s" % os.environ.get("VERIF_SYMBOLIZE", "0"),
               "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1:abort_on_error=1"}

        p = subprocess.Popen([self.bin[flavour], od, str(w)], stdin=subprocess.PIPE, stdout=subprocess.DEVNULL,
                             stderr=subprocess.DEVNULL, env=env, pass_fds=(w,))
        os.close(w)
        rf = os.fdopen(os.dup(r), "rb", buffering=0)
        self.proc[flavour] = (p, r, (rf, od))
        return self.proc[flavour]

    def materialise(self, files):
        """files: {relpath: bytes | ('dir',) | ('link', target)} -> fresh directory"""
        self.n += 1
        d = os.path.join(self.dir, "c%d" % self.n)
        os.mkdir(d)
        made = {d}
        for rel, content in files.items():
            p = os.path.join(d, rel)
            pd = os.path.dirname(p)
            if pd not in made:
                os.makedirs(pd, exist_ok=True)
                made.add(pd)
            if isinstance(content, tuple):
                if content[0] == "dir":
                    os.makedirs(p, exist_ok=True)
                else:
                    os.symlink(content[1], p)
            else:
                if isinstance(content, str):
                    content = content.encode("utf-8", "surrogateescape")
                with open(p, "wb") as f:
                    f.write(content)
        return d

    def call(self, cwd, argv, flavour="plain", root="", perturb=0x5a):
        p, _, (rf, od) = self._zyg(flavour)
        a = [x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x for x in ["selint"] + list(argv)]
        c = cwd.encode()
        rt = root.encode()
        msg = ("%d %d %d %d %d %s\n" % (len(c), len(rt), self.cpu, perturb, len(a), " ".join(str(len(x)) for x in a))).encode()
        try:
            p.stdin.write(msg + c + rt + b"".join(a))
            p.stdin.flush()
            line = b""
            while not line.endswith(b"\n"):
                ch = rf.read(64)
                if not ch:
                    raise ZygoteDied()
                line += ch
        except (BrokenPipeError, ZygoteDied):
            self.proc.pop(flavour, None)
            raise ZygoteDied()
        st, us = line.split()
        st = int(st)
        r = Run()
        r.argv = list(argv)
        r.flavour = flavour
        if st < 0:
            raise ZygoteDied()
        if os.WIFSIGNALED(st):
            r.rc, r.sig = None, os.WTERMSIG(st)
        else:
            r.rc, r.sig = os.WEXITSTATUS(st), 0
        r.cpu = int(us) / 1e6
        with open(os.path.join(od, "out"), "rb") as f:
            r.out = f.read()
        with open(os.path.join(od, "err"), "rb") as f:
            r.err = f.read()
        self.runs += 1
        return r

    def run(self, files, argv, flavour="plain", root=None, keep=False, perturb=0x5a, tty=0):
        """root: relative directory inside the tree standing for / (for the redirected system paths)"""
        d = self.materialise(files)
        if any(isinstance(a, str) and "@CWD@" in a for a in argv):
            argv = [a.replace("@CWD@", d) if isinstance(a, str) else a for a in argv]
        try:
            r = self.call(d, argv, flavour, os.path.join(d, root) if root else os.path.join(d, "no-such-root"), perturb | tty << 8)
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)
        r.files = files
        r.root = root
        r.tty = tty
        if self.log is not None:
            self.log.append(r)
        return r


class Fail(Exception):
    """A property violation found by a check."""

    def __init__(self, msg, tag=""):
        super().__init__(msg)
        self.msg = msg
        self.tag = tag


class Ctx:
    """Handed to a property's case function."""

    def __init__(self, ex, prop, tier):
        self.ex = ex
        self.prop = prop
        self.tier = tier
        self.labels = {}
        self.nontrivial = None
        self.sample = None
        self.runs = 0

    def label(self, name, n=1):
        self.labels[name] = self.labels.get(name, 0) + n

    def run(self, files, argv, **kw):
        # memory never written to holds other bytes in every other run
        r = self.ex.run(files, argv, perturb=(0x5a, 0x2e)[self.runs % 2], **kw)
        self.runs += 1
        if r.sig or r.rc not in EXIT_OK:
            # no generated input may end selint abnormally, whatever the property
            tail = (r.err or r.out).decode("utf-8", "replace")
            san = re.search(r"(ERROR: AddressSanitizer|runtime error)[^\n]*(\n\s+#\d[^\n]*){0,6}", tail)
            tail = san.group(0) if san else tail[-600:]
            if r.sig == signal.SIGXCPU or r.sig == signal.SIGKILL:
                raise Fail("selint did not terminate (ended by signal %d after %.0f s of CPU time)" % (r.sig, r.cpu), "hang")
            raise Fail("selint ended abnormally: %s\n%s" % (r.describe(), tail), "crash")
        return r


# ---------------------------------------------------------------- workers

def _seed_for(seed, prop, tier, idx):
    h = hashlib.sha256(("%s:%s:%s:%s" % (seed, prop, tier, idx)).encode()).digest()
    return int.from_bytes(h[:8], "big")


def run_case(prop, ex, src, tier, log=None):
    ctx = Ctx(ex, prop, tier)
    ex.log = log
    try:
        prop.case(src, ctx)
        return None, ctx
    except Fail as f:
        return f, ctx
    finally:
        ex.log = None


def worker(prop, tier, seed, start, step, total, deadline, q, stop):
    try:
        signal.signal(signal.SIGINT, signal.SIG_IGN)
        ex = Exec(prop.flavours, prop.cpu)
        labels = {}
        seen = set()
        samples = []
        done = 0
        fail = None
        idx = start
        while idx < total:
            if stop.is_set():
                break
            if time.time() > deadline:
                break
            src = Src(random.Random(_seed_for(seed, prop.id, tier, idx)))
            f, ctx = run_case(prop, ex, src, tier)
            done += 1
            for k, v in ctx.labels.items():
                labels[k] = labels.get(k, 0) + v
            if ctx.nontrivial is not None:
                seen.add(hashlib.blake2b(repr(ctx.nontrivial).encode("utf-8", "replace"), digest_size=8).digest())
                if len(samples) < 2 and ctx.sample is not None:
                    samples.append((idx, ctx.sample))
            if f is not None:
                fail = (idx, src.rec, f.msg, f.tag)
                stop.set()
                break
            idx += step
        runs = ex.runs
        ex.close()
        q.put(("ok", start, done, runs, labels, seen, samples, fail))
    except BaseException:
        q.put(("error", start, traceback.format_exc()))


# ---------------------------------------------------------------- shrinking

def shrink(prop, ex, tier, choices, tag, budget, deadline):
    tries = 0
    best = list(choices)

    def attempt(c):
        nonlocal tries, best
        if tries >= budget or time.time() > deadline:
            return False
        tries += 1
        src = Src(given=c)
        try:
            f, _ = run_case(prop, ex, src, tier)
        except ZygoteDied:
            raise
        except Exception:
            return False           # an edited choice sequence the generator cannot handle
        if f is not None and f.tag == tag:
            rec = src.rec
            while rec and rec[-1] == 0:
                rec.pop()
            if (len(rec), rec) < (len(best), best):
                best = rec
                return True
        return False

    attempt(best)
    improved = True
    while improved and tries < budget and time.time() < deadline:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = 0
            while i < len(best):
                c = best[:i] + best[i + size:]
                if attempt(c):
                    improved = True
                else:
                    i += size
                if tries >= budget or time.time() > deadline:
                    break
            size //= 2
            if tries >= budget or time.time() > deadline:
                break
        i = 0
        while i < len(best) and tries < budget and time.time() < deadline:
            if best[i]:
                if attempt(best[:i] + [0] + best[i + 1:]):
                    improved = True
                elif i < len(best) and best[i] > 1:
                    lo = best[i]
                    for v in (1, lo // 2, lo - 1):
                        if i < len(best) and 0 < v < best[i] and attempt(best[:i] + [v] + best[i + 1:]):
                            improved = True
                            break
            i += 1
    return best, tries


# ---------------------------------------------------------------- known findings

def load_known(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#"):
                    continue
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


# ---------------------------------------------------------------- replay files

def write_replay(prop, tier, seed, idx, choices, msg, log):
    d = os.path.join(VERIF, "replays", "%s-%s" % (prop.id, hashlib.sha256(repr(choices).encode()).hexdigest()[:12]))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    with open(os.path.join(d, "case.json"), "w") as f:
        json.dump({"property": prop.id, "tier": tier, "seed": seed, "case": idx, "choices": choices}, f)
    with open(os.path.join(d, "message.txt"), "w") as f:
        f.write(msg + "\n")
    for n, r in enumerate(log or []):
        rd = os.path.join(d, "run%d" % n)
        os.makedirs(rd)
        for rel, c in r.files.items():
            p = os.path.join(rd, "tree", rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            try:
                if isinstance(c, tuple):
                    if c[0] == "dir":
                        os.makedirs(p, exist_ok=True)
                    else:
                        os.symlink(c[1], p)
                else:
                    with open(p, "wb") as f:
                        f.write(c.encode("utf-8", "surrogateescape") if isinstance(c, str) else c)
            except OSError:
                pass
        with open(os.path.join(rd, "cmd.txt"), "w") as f:
            f.write("cd tree; selint %s\nbuild flavour: %s\n-> %s\n" % (
                " ".join(repr(x) for x in r.argv), r.flavour + "".join(
                    "; standard %s is a terminal" % n for i, n in enumerate(("input", "output", "error")) if r.tty >> i & 1), r.describe()))
        with open(os.path.join(rd, "stdout.txt"), "wb") as f:
            f.write(r.out)
        with open(os.path.join(rd, "stderr.txt"), "wb") as f:
            f.write(r.err)
    with open(os.path.join(d, "README.txt"), "w") as f:
        f.write("Replay: python3 /verif/lib/check.py %s --replay %s\n" % (prop.id, d))
    return d


# ---------------------------------------------------------------- driver

def run_property(prop, tier, seed, nworkers=None, total=None):
    t0 = time.time()
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    total = total or int(os.environ.get("VERIF_CASES", "0")) or prop.cases[tier]
    guard = prop.guard[tier]
    for fl in prop.flavours:
        build.build(fl)
    ctxm = mp.get_context("fork")
    violations = 0
    rc = 0
    replay = None

    # deterministic part: regression inputs and fixed known findings
    ex = Exec(prop.flavours, prop.cpu)
    known_lines = []
    fixed_n = 0
    try:
        for name, fn in prop.fixed_cases():
            fixed_n += 1
            msgs = []
            for _ in range(3):
                ctx = Ctx(ex, prop, tier)
                log = []
                ex.log = log
                try:
                    fn(ctx)
                    msgs.append(None)
                except Fail as f:
                    msgs.append(f.msg)
                ex.log = None
                if msgs[-1] is None:
                    break
            if all(m is not None for m in msgs):
                d = write_replay(prop, tier, seed, name, [name], "regression case %s: %s" % (name, msgs[0]), log)
                print("VIOLATION property=%s replay=%s" % (prop.id, d))
                print("  regression case %s: %s" % (name, msgs[0].split("\n")[0]))
                violations += 1
                rc = 1
                replay = d
                break
        for k in load_known(prop.id):
            if prop.known_still_fails(k, ex):
                print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]))
            else:
                print("note: listed finding no longer reproduces: %s" % k["what"])
    finally:
        ex.close()

    labels, seen, samples, done, runs = {}, set(), [], 0, 0
    fail = None
    truncated = False
    if rc == 0:
        q = ctxm.Queue()
        stop = ctxm.Event()
        deadline = t0 + guard
        ps = [ctxm.Process(target=worker, args=(prop, tier, seed, w, nworkers, total, deadline, q, stop))
              for w in range(nworkers)]
        for p in ps:
            p.start()
        got = 0
        errors = []
        while got < nworkers:
            try:
                m = q.get(timeout=5)
            except Exception:
                if not any(p.is_alive() for p in ps) and q.empty():
                    break
                continue
            got += 1
            if m[0] == "error":
                errors.append(m[2])
                stop.set()
                continue
            _, _, dn, rn, lb, sn, sm, fl = m
            done += dn
            runs += rn
            for k, v in lb.items():
                labels[k] = labels.get(k, 0) + v
            seen |= sn
            samples += sm
            if fl and (fail is None or fl[0] < fail[0]):
                fail = fl
        for p in ps:
            p.join(timeout=10)
            if p.is_alive():
                p.kill()
        if errors and not fail:
            sys.stderr.write("check error:\n" + errors[0])
            return 2
        truncated = done < total and not fail

    if fail:
        idx, choices, msg, tag = fail
        ex = Exec(prop.flavours, prop.cpu)
        try:
            # the program is deterministic up to the contents of memory it should not look at: every replay
            # of a hang must hang, for other failures one of five replays is enough
            reproduced = 0
            tries = 3 if tag == "hang" else 5
            for _ in range(tries):
                f, _ = run_case(prop, ex, Src(given=list(choices)), tier)
                if f is not None and f.tag == tag:
                    reproduced += 1
            if reproduced == tries or (reproduced and tag != "hang"):
                budget, limit = (2500, 60) if tier == "quick" else (6000, 180)
                if tag == "hang":
                    budget, limit = 10, 120
                best, tries = shrink(prop, ex, tier, choices, tag, budget, time.time() + limit)
                log = []
                f, _ = run_case(prop, ex, Src(given=list(best)), tier, log)
                if f is None or f.tag != tag:
                    best = choices
                    log = []
                    f, _ = run_case(prop, ex, Src(given=list(best)), tier, log)
                if f is not None:
                    replay = write_replay(prop, tier, seed, idx, best, f.msg, log)
                    print("VIOLATION property=%s replay=%s" % (prop.id, replay))
                    print("  case %s (%d choices, shrunk from %d in %d runs): %s" % (
                        idx, len(best), len(choices), tries, f.msg))
                    violations += 1
                    rc = 1
            if rc == 0:
                print("inconclusive: case %s failed once but did not replay (%d/%d): %s" % (idx, reproduced, tries, msg.split("\n")[0]))
        finally:
            ex.close()

    samples.sort(key=lambda s: s[0])
    ev = {
        "property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": done + fixed_n,
            "distinct_nontrivial": len(seen),
            "rule": prop.rule,
            "samples": [{"case": i, "input": s} for i, s in samples[:4]] or ["(stopped at a regression case)"],
            "program_runs": runs,
            "regression_cases": fixed_n,
            "distribution": dict(sorted(labels.items())),
            "stopped_by_time_guard": truncated,
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": violations,
    }
    if replay:
        ev["coverage"]["replay"] = replay
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", ".%s.tmp" % prop.id)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, "evidence", prop.id + ".json"))
    if rc == 0:
        print("%s %s: %d cases, %d distinct non-trivial, %d program runs, %.1f s%s" % (
            prop.id, tier, done, len(seen), runs, time.time() - t0,
            " (time guard reached: inconclusive beyond that)" if truncated else ""))
    return rc


class Property:
    id = None
    flavours = ("plain",)
    cpu = 20
    cases = {"quick": 8000, "thorough": 200000}
    guard = {"quick": 420, "thorough": 640}
    rule = ""
    assumptions = []

    def case(self, src, ctx):
        raise NotImplementedError

    def fixed_cases(self):
        import regress
        return regress.cases(self.id)

    def known_still_fails(self, k, ex):
        return False
