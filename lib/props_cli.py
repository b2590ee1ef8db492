"""The command line (C24) and renaming (C25)."""
import re

import gen
import model
from engine import Fail, Property
from pol import Layout
from proj import FIND, parse, render
from props_meta import ALL, _firstdiff, mark, ok, rich, same

LONG = {"c": "config", "d": "disable", "e": "enable", "E": "only-enabled", "F": "fail", "l": "level", "r": "recursive", "s": "source",
        "S": "summary", "v": "verbose", "color": "color", "context": "context", "hidden": "scan-hidden-dirs",
        "sumonly": "summary-only", "h": "help", "V": "version"}
VALUED = {"c", "d", "e", "l", "color", "context"}
# ids which name no check
NOID = ["W-1", "C-05", "W-0011", "C-001x", "E-7", "C-001 ", "W-001,", "S- 01", "W--01", "W-+01", "c-001", "W-001-", "C--1", "W-0001",
        "X-001", "W-999", "w-001", "W001", "FOO", "", "W", "-", "C_001", "S-123", "E-100", "all", "W-", "%s"]
BADCOLOR = ["ON", "yes", "", "of", "onn", "auto ", "On", "1", "never", "always", "autoo", "au"]
BADLEVEL = ["X", "", "0", "1", "-", "A", "Q", " W", "Z-001"]
UNKNOWN = [["-x"], ["-Z"], ["--bogus"], ["--recursiv3"], ["--sourced"], ["--levels=W"], ["-Q", "-r"], ["--only-enable-d"], ["-9"],
           ["--disabled=C-001"], ["-rsX"], ["--check"], ["--Fail"]]


class C24(Property):
    id = "C24"
    cases = {"quick": 26000, "thorough": 300000}
    rule = ("a case runs one generated project with a random choice of options, once spelt canonically in front of the paths and once with "
            "every option in a random spelling (short, long, joined, separate, bundled, repeated), order and position among the paths: output "
            "and status have to be the same; or with a mistake, which has to be refused before anything is checked, or with -h or -V, or with "
            "ids of no check, which have to be announced and otherwise ignored; non-trivial if findings are printed, or the line is refused")
    assumptions = ["abbreviated long options are left out"]

    def options(self, s, pr):
        """-> [(key, value)]: the meaning of a command line, single-valued options once"""
        o = []
        if pr.config is not None:
            o.append(("c", "selint.conf"))
        if pr.source:
            o.append(("s", None))
        if s.chance(40):
            o.append(("l", s.pick("CSWEF")))
        for k, pct in (("F", 40), ("S", 40), ("sumonly", 10), ("v", 15), ("hidden", 20)):
            if s.chance(pct):
                o.append((k, None))
        if s.chance(40):
            o.append(("color", s.pick(["on", "off", "auto"])))
        for k, pct in (("d", 50), ("e", 40)):
            if s.chance(pct):
                for i in s.sample(ALL, s.rng_int(1, 5)):
                    o.append((k, i))
        if any(k == "e" for k, _ in o) and s.chance(50):
            o.append(("E", None))
        if s.chance(25):
            for p in s.sample(["ctx", "ctx2", "pol"], s.rng_int(1, 2)):
                o.append(("context", p))
        return o

    @staticmethod
    def canonical(o, paths):
        a = []
        for k, v in o:
            a.append("--" + LONG[k])
            if v is not None:
                a[-1] += "=" + v
        return a + paths

    def spelt(self, s, o, paths, dash):
        """the same meaning in another spelling"""
        seqs = {}
        for k, v in o:
            seqs.setdefault(k if k in ("d", "e", "context") else (k, v), []).append((k, v))
        # options whose order counts stay in order
        pool = [list(x) for x in seqs.values()]
        for x in list(pool):
            k, v = x[0]
            if k not in ("d", "e", "context") and s.chance(10):
                if k in VALUED:
                    # an earlier value is overridden
                    first = {"c": ["absent.conf", "other.conf"], "l": list("CSWEF"), "color": ["on", "off", "auto"]}[k]
                    x.insert(0, (k, s.pick(first)))
                else:
                    x.append((k, v))
        toks = []
        while any(pool):
            x = s.pick([x for x in pool if x])
            toks.append(x.pop(0))
        out = []
        i = 0
        while i < len(toks):
            k, v = toks[i]
            if len(k) == 1 and s.chance(65):
                b = "-" + k
                # bundle
                while k not in VALUED and i + 1 < len(toks) and len(toks[i + 1][0]) == 1 and s.chance(50):
                    i += 1
                    k, v = toks[i]
                    b += k
                if v is None:
                    out.append([b])
                elif v and s.chance(50):
                    out.append([b + v])
                else:
                    out.append([b, v])
            elif v is None:
                out.append(["--" + LONG[k]])
            else:
                out.append([["--" + LONG[k] + "=" + v], ["--" + LONG[k], v]][s.below(2)])
            i += 1
        if dash:
            return sum(out, []) + ["--"] + paths
        ps = list(paths)
        res = []
        while out or ps:
            if ps and (not out or s.chance(25)):
                res.append(ps.pop(0))
            else:
                res += out.pop(0)
        if s.chance(20) and not any(p.startswith("-") for p in paths):
            # everything after -- is a path
            j = len(res)
            while j > 0 and res[j - 1] in paths and (j < 2 or res[j - 2] in paths or res[j - 2] not in self.separate):
                j -= 1
            if j < len(res):
                res.insert(j, "--")
        return res

    separate = {"-" + k for k in "cdel"} | {"--" + LONG[k] for k in VALUED}

    def case(self, s, ctx):
        pr = rich(s, nmods=(1, 3), fc=40, nstmts=(0, 4))
        pr.source = s.chance(70)
        files = render(pr, s, Layout(noise=0))
        files["other.conf"] = 'severity = "fatal"\n'
        files["ctx/zeta/zeta.te"] = "policy_module(zeta, 1.0)\ntype zeta_t;\n"
        files["ctx2/zeta/eta.te"] = "policy_module(eta, 1.0)\ntype eta_t;\n"
        files["ctx2/.hid/iota.te"] = "policy_module(iota, 1.0)\nallow iota_t zeta_t:file { write read };\n"
        files["pol/.hid/theta.te"] = "policy_module(theta, 1.0)\nallow theta_t zeta_t:file { write read };\n"
        paths = [["pol"], ["pol"], ["pol/" + p for p in sorted({x.split("/")[1] for x in files if x.startswith("pol/") and x.count("/") > 1})],
                 sorted(x for x in files if x.endswith((".te", ".if", ".fc")) and x.startswith("pol/") and "/." not in x)][s.below(4)] or ["pol"]
        o = self.options(s, pr)
        if s.chance(90):
            o.append(("r", None))
        k = s.wpick([(6, "same"), (3, "refuse"), (1, "info"), (2, "noid")])
        ctx.label(k)
        if k == "refuse":
            return self.refuse(s, ctx, pr, files, o, paths)
        if k == "info":
            a = self.spelt(s, o, paths, False) if s.chance(70) else []
            w = s.pick(["-h", "--help", "-V", "--version"])
            # in front of an option or path, not of an option's value
            at = [i for i in range(len(a) + 1) if (i == 0 or a[i - 1] not in self.separate and not self.takes(a[i - 1])) and "--" not in a[:i]]
            a.insert(s.pick(at), w)
            r = ctx.run(files, a)
            if r.rc != 0:
                raise Fail("exit status %s with %s" % (r.rc, w), "info")
            t = r.out.decode("utf-8", "replace")
            if parse(r):
                raise Fail("findings with %s" % w, "info")
            if "V" in w or w == "--version":
                if not re.match(r"^SELint \S+\n$", re.sub("\x1b\\[[0-9;]*m", "", t)):
                    raise Fail("%s prints %r" % (w, t[:200]), "info")
            else:
                miss = [x for x in LONG.values() if "--" + x not in t]
                if miss:
                    raise Fail("%s does not mention %s" % (w, miss), "info")
            ctx.nontrivial = (tuple(a),)
            return
        if k == "noid":
            bad = [(s.pick("de"), s.pick(NOID)) for _ in range(s.rng_int(1, 3))]
            if any(x == "E" for x, _ in o) or s.chance(50):
                bad = [("d", i) for _, i in bad]
            base = ctx.run(files, self.canonical(o, paths))
            o2 = list(o)
            for b in bad:
                o2.insert(s.below(len(o2) + 1), b)
            f2 = files
            if pr.config is not None and s.chance(30):
                key = s.pick(["disable", "enable_normal", "enable_source"])
                if not re.search(r"\b%s\b" % key, files["selint.conf"]) and ("source" in key) <= any(x in "s" or x == "context" for x, _ in o2) and \
                        ("normal" not in key or not any(x == "s" or x == "context" for x, _ in o2)):
                    i = s.pick([x for x in NOID if "%" not in x])
                    f2 = dict(files)
                    f2["selint.conf"] += "\n%s = { \"%s\" }\n" % (key, i)
                    bad.append(("conf", i))
            r = ctx.run(f2, self.canonical(o2, paths))
            t, want = (re.sub("\x1b\\[[0-9;]*m", "", x.out.decode("utf-8", "replace")).split("\n") for x in (r, base))
            ann = [l for l in t if l.startswith("Warning") and "check id" in l and l not in want]
            for kk, i in bad:
                if not any(i in l and (("in config" in l) if kk == "conf" else "command line" in l) for l in ann):
                    raise Fail("the unknown check id %r is not announced" % i, "noid")
            if len(ann) != len(bad):
                raise Fail("%d announcements for %d unknown check ids: %s" % (len(ann), len(bad), ann[:3]), "noid")
            t = [l for l in t if l not in ann]
            if t != want or r.rc != base.rc:
                raise Fail("unknown check ids change the output: %s" % _firstdiff("\n".join(want), "\n".join(t)), "noid")
            mark(ctx, parse(base), files, tuple(bad))
            return
        dash = s.chance(15)
        if dash:
            # a folder which looks like an option
            d = s.pick(["-r", "--source", "-x", "-", "--help", "-dC-001"])
            files = {(d + p[3:] if p.startswith("pol/") or p == "pol" else p): t for p, t in files.items()}
            base = ctx.run(files, self.canonical(o, ["./" + d]))
            a = self.spelt(s, o, [d], True)
            o = [(x, y) for x, y in o]
        else:
            base = ctx.run(files, self.canonical(o, paths))
            a = self.spelt(s, o, paths, False)
        r = ctx.run(files, a)
        x, y = base.out, r.out
        if dash:
            x = x.replace(b"./" + d.encode(), d.encode())
        if r.rc != base.rc or x != y or r.err != base.err:
            raise Fail("%r and %r differ: status %s/%s, %s" % (
                self.canonical(o, paths), a, base.rc, r.rc, _firstdiff(x.decode("utf-8", "replace"), y.decode("utf-8", "replace"))), "spelling")
        f = parse(base)
        ctx.label("status %s" % base.rc)
        if f or b"issue counts" in base.out:
            ctx.nontrivial = (tuple(a), tuple(q.raw for q in f))
            ctx.sample = [" ".join(a)[:300]] + [q.raw for q in f[:2]]

    @staticmethod
    def takes(t):
        """a bundle whose last letter takes the next word"""
        return re.match(r"^-[A-Za-z]+$", t) is not None and t[-1] in "cdel" and not any(c in "cdel" for c in t[1:-1])

    def refuse(self, s, ctx, pr, files, o, paths):
        m = s.below(6)
        a = None
        if m == 0:
            bad = list(s.pick(UNKNOWN))
        elif m == 1:
            bad = s.pick([["--fail=1"], ["--recursive=yes"], ["--source="], ["--summary-only=1"], ["--only-enabled=W-001"], ["--verbose=2"]])
        elif m == 2:
            v = s.pick(BADCOLOR)
            bad = s.pick([["--color", v], ["--color=" + v]])
        elif m == 3:
            v = s.pick(BADLEVEL)
            bad = s.pick([["--level", v], ["--level=" + v], ["-l", v]])
        elif m == 4:
            # a missing value: the option is last
            bad = [s.pick(["-c", "-d", "-e", "-l", "--config", "--disable", "--enable", "--level", "--color", "--context", "-rc", "-sl"])]
            a = self.spelt(s, o, paths, False)
            if "--" in a:
                a.remove("--")
            a += bad
        else:
            n = s.below(3)
            if n == 0:
                bad = ["no paths"]
                a = self.spelt(s, o, [], False)
            elif n == 1:
                bad = s.pick([["-E"], ["--only-enabled"]])
                o = [x for x in o if x[0] not in "eE"]
            else:
                o = [x for x in o if x[0] != "c"]
                files["adir"] = ("dir",)
                v = s.pick(["absent.conf", "adir", "nodir/selint.conf", "selint.conf/x", "", "pol"])
                bad = s.pick([["--config=" + v], ["--config", v], ["-c", v]])
        if a is None:
            a = self.canonical(o, paths)
            if bad[0] in ("-E", "--only-enabled") or bad[0].startswith(("-c", "--config")):
                a = bad + a
            else:
                a = a[:len(a) - len(paths)]
                a[s.below(len(a) + 1):0] = bad
                a += paths
        r = ctx.run(files, a)
        if r.rc != 64:
            raise Fail("exit status %s instead of 64 for the command line %r" % (r.rc, a), "refuse")
        if parse(r) or b"issue counts" in r.out:
            raise Fail("something is checked although the command line %r is refused" % a, "refuse")
        if not (r.out + r.err).strip():
            raise Fail("the command line %r is refused without a word" % a, "refuse")
        ctx.label("refused: %s" % bad[0].split("=")[0])
        ctx.nontrivial = (tuple(a),)
        ctx.sample = ["refused: %s" % " ".join(a)[:300]]


# their names mean something to the checks
KEPT = {"filesystem", "devices", "kernel", "mls", "mcs"}


class C25(Property):
    id = "C25"
    cases = {"quick": 24000, "thorough": 300000}
    rule = ("a case renames all modules of a generated project (but kernel, filesystem, devices, mls and mcs, whose names have a meaning) together with "
            "all names bearing their prefix, in files, file names, support files and configuration, to longer or otherwise different names, and "
            "compares the findings of both runs, names in messages mapped too; non-trivial if the original run has findings which mention a "
            "renamed name")
    assumptions = ["C-001 and C-006 only take part if the renaming keeps the alphabetical order of all names"]

    def case(self, s, ctx):
        pr = rich(s, fc=60, exc=s.pick([0, 10]), look=s.pick([0, 40]), tmpls=(0, 2), tmpl_calls=s.pick([0, 30]))
        pr.config = dict(pr.config or {})
        files = render(pr, s)
        stems = sorted({m for m in gen.MODNAMES if m not in KEPT}, key=len, reverse=True)
        words = s.wpick([(3, ""), (2, "x" * s.pick([20, 63, 64, 127, 128, 255, 300])), (2, s.pick(["z", "q7", "very_long_project_name", "b_b"])),
                         (1, s.pick(["alph", "kernel", "dev", "fs", "gam", "f"]))])
        if words:
            words += "_" * s.below(2) if words not in ("kernel", "dev", "fs") else ""
            new = {m: words + m for m in stems}
        else:
            # the order of the letters stays: repeat the first one or lengthen the end
            n = s.pick([1, 2, 30, 100])
            new = {m: m[0] * n + m for m in stems} if s.chance(50) else {m: m + "9" * n for m in stems}
            if any(new[a] + "_" == new[b][:len(new[a]) + 1] or a + "_" == b[:len(a) + 1] != (new[a] + "_" == new[b][:len(new[a]) + 1])
                   for a in stems for b in stems if a != b):
                new = {m: "x" + m for m in stems}
        rx = re.compile(r"(?<![A-Za-z0-9_])(%s)(?=_|(?![A-Za-z0-9_]))" % "|".join(stems))
        f = lambda t: rx.sub(lambda m: new[m.group(1)], t) if isinstance(t, str) else t
        middle = s.chance(25)
        if middle:
            # only what follows the module's name grows: modules and files keep their names
            rx = re.compile(r"(?<![A-Za-z0-9_])(?!(?:%s)(?![A-Za-z0-9_]))(%s)_(?=[A-Za-z0-9])" % ("|".join(gen.MODNAMES), "|".join(stems)))
            n = s.pick([3, 60, 120, 200, 250, 400, 500, 600, 1000, 2000, 5000])
            word = s.pick("qz") * (n + s.below(12))
            new = {m: m + "_" + word for m in stems}
            f = lambda t: rx.sub(lambda m: new[m.group(1)] + "_", t) if isinstance(t, str) else t
            ctx.label("middle")
        if any(m in KEPT and m in new.values() for m in gen.MODNAMES) or set(new.values()) & set(gen.MODNAMES):
            return
        f2 = {(p if middle else f(p)): f(t) for p, t in files.items()}
        if len(f2) != len(files) or any(len(x) > 250 for p in f2 for x in p.split("/")):
            return
        toks = sorted({t for p, x in files.items() if isinstance(x, str) for t in re.findall(r"[A-Za-z0-9_]+", x)})
        mapped = [f(t) for t in toks]
        if len(set(mapped)) != len(toks):
            return
        sel = []
        key = lambda t: (t[:-2] if t.endswith("_t") else t)
        keep = all(f(a) < f(b) for a, b in zip(toks, toks[1:])) and \
            [f(t) for t in sorted(toks, key=key)] == sorted(mapped, key=key)
        if not keep:
            sel = ["-d", "C-001", "-d", "C-006"]
        argv = ([] if not pr.source else ["-s"]) + ["-c", "selint.conf"] + sel + ["-r", "pol"]
        a = ok(ctx.run(files, argv))
        b = ok(ctx.run(f2, argv), " after renaming")
        for o in a:
            o.old = (o.file, o.msg)
            o.file, o.msg = (o.file if middle else f(o.file)), f(o.msg)
        same(a, b, "renaming %s" % (sorted(new.items())[0],))
        ctx.label("order kept" if keep else "order changed")
        if any(o.old != (o.file, o.msg) for o in a):
            mark(ctx, a, f2)


PROPERTIES = [C24(), C25()]
