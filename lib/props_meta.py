"""Properties decided by metamorphic relations between runs of selint."""
import re
from collections import Counter

import gen
import model
from engine import Fail, Property
from pol import Layout, N, PFile, link, render_file
from proj import FIND, argv, compare, fatal, layout, parse, parse_summary, render, support
from props_model import kinds

RICH = dict(nmods=(1, 4), fc=50, ifs=(0, 3), tmpls=(0, 1), te_body=92, modconf=70, av=70, spt=70, config=60,
            nstmts=(0, 7), maxdepth=3, hdr_bare=12, hdr_bad=6, clash=12)


def rich(s, **kw):
    d = dict(RICH)
    d["kinds"] = s.pick([None, None, kinds(call=14, optional=8), kinds(req=10, optional=8, ifdef=5),
                         kinds(semi=5, stray=5, xav=6, tt=6), kinds(decl=8, typeattr=5, rtypes=5, ra=4, rt=4)])
    if d["kinds"] is None:
        del d["kinds"]
    d.update(kw)
    return gen.Gen(s, gen.Prof(**d)).project()


def single(pr):
    """every name is declared by one module only, no recursive templates; -> Model or None"""
    try:
        m = model.Model(pr)
    except model.Ambiguous:
        return None
    return None if m.loops else m


def ok(r, what=""):
    if r.rc != 0:
        raise Fail("exit status %s for a valid policy%s\n%s" % (
            r.rc, what, (r.out + r.err)[-600:].decode("utf-8", "replace")), "status")
    o = parse(r)
    if fatal(o):
        raise Fail("fatal finding for a valid policy%s: %s" % (what, fatal(o)[0].raw), "fatal")
    return o


def same(a, b, what, key=lambda o: (o.file, o.line, o.id, o.msg)):
    """equal multisets of findings"""
    x, y = Counter(key(o) for o in a), Counter(key(o) for o in b)
    if x != y:
        m = ["only %s: %s" % (w, k) for w, c in (("before", x - y), ("after", y - x)) for k in sorted(c, key=str)[:3]]
        ids = sorted({k[2] if len(k) > 2 else str(k) for k in list((x - y)) + list((y - x))})
        raise Fail("%s changes the findings\n%s" % (what, "\n".join(m)), "differ-%s" % ids[0])


def mark(ctx, outs, files, extra=()):
    """count the case as non-trivial if it has findings"""
    if outs:
        ctx.nontrivial = (tuple(sorted(o.raw for o in outs)), extra,
                          tuple(sorted(k for k in files)))
        ctx.sample = ["%d files, %d findings" % (len(files), len(outs))] + [str(e)[:300] for e in extra] + \
            [o.raw for o in outs[:4]]
    for o in outs:
        ctx.label("finding " + o.id)


PLAIN = Layout(noise=0)
ORDERINGS = ["refpolicy", "refpolicy-light", "refpolicy-lax"]


class C04(Property):
    id = "C04"
    cases = {"quick": 22000, "thorough": 300000}
    rule = ("a case renders one generated project twice, plainly and with random layout (comments, blank lines, "
            "indentation, line breaks inside statements, joined lines, trailing blanks, CRLF, missing final newline), and "
            "compares all findings except C-001 with line numbers mapped statement by statement; it is non-trivial if "
            "there is at least one finding")
    assumptions = ["C-001 is excluded: its convention orders sections by their average line number, so layout is part of its input"]

    def case(self, s, ctx):
        pr = rich(s, exc=s.pick([0, 12]), fc=60)
        f1 = render(pr, s, PLAIN)
        at = {}
        for pf in pr.files:
            at[pf.base] = {}
            for n in self.nodes(pf.nodes):
                at[pf.base].setdefault(n.line, n)
        sup = {k: v for k, v in f1.items() if k not in {pf.path for pf in pr.files}}
        f2 = {}
        for pf in pr.files:
            lay = layout(s, noise=s.wpick([(1, 0), (4, 1), (3, 2)]), crlf=s.chance(15))
            f2[pf.path] = self.trailing(s, render_file(pf, s, lay), pf.kind)
        f2.update(sup)
        sel = ["-d", "C-001"]
        a = ok(ctx.run(f1, argv(pr, *sel, "-r", "pol")))
        b = ok(ctx.run(f2, argv(pr, *sel, "-r", "pol")), " in another layout")
        mapped = []
        for o in a:
            n = at.get(o.file, {}).get(o.line)
            if n is None:
                raise Fail("finding %s is on a line where no statement starts" % o.raw, "line")
            mapped.append((o.file, n.line, o.id, o.msg))
        same([_K(*k) for k in mapped], b, "changing the layout")
        mark(ctx, a, f2, (tuple(sorted((k, v) for k, v in f2.items() if isinstance(v, str) and k.endswith((".te", ".if", ".fc")))),)
             if a else ())
        if a:
            ctx.sample = ["layout of %s: %r" % (pr.files[0].path, f2[pr.files[0].path][:300])] + [o.raw for o in b[:4]]

    @staticmethod
    def nodes(ns):
        for n in ns:
            if n.k not in ("m4arg",):
                yield n
            yield from C04.nodes(n.ch)

    @staticmethod
    def trailing(s, t, kind):
        pct = s.pick([0, 0, 6, 20])
        if not pct:
            return t
        out = []
        for l in t.split("\n"):
            cr = l.endswith("\r")
            b = l[:-1] if cr else l
            # a line continued by a backslash or in the middle of nothing never occurs in the dialect
            if b and not (kind == "fc" and not b.strip()) and s.chance(pct):
                b += s.pick([" ", "\t", "   "])
            out.append(b + ("\r" if cr else ""))
        return "\n".join(out)


class _K:
    def __init__(self, file, line, id, msg):
        self.file, self.line, self.id, self.msg = file, line, id, msg


ALL = ["C-001"] + [i for i in gen.ALLIDS if i != "C-001"]
RANK = {"C": 0, "S": 1, "W": 2, "E": 3, "F": 4}
SEVNAME = {"C": "convention", "S": "style", "W": "warning", "E": "error", "F": "fatal"}


class C05(Property):
    id = "C05"
    cases = {"quick": 24000, "thorough": 340000}
    rule = ("a case runs one generated project with every check and again with a random selection (level, -d, -e, -E, "
            "configured severity, disable, enable_normal, enable_source; source or normal mode); the second run has to print "
            "exactly the selected part of the first; non-trivial if the selection keeps some and drops some findings")
    assumptions = []

    def ids(self, s, n):
        r = s.sample(ALL, s.rng_int(0, n))
        if s.chance(6):
            r.append(s.pick(["X-001", "C-999", "c-005", "W-00", "", "E-0077"]))
        return r

    def case(self, s, ctx):
        pr = rich(s, fc=60, exc=s.pick([0, 0, 10]))
        pr.source = s.chance(75)
        bare = s.chance(12)                  # no configuration at all
        base_cfg = dict(pr.config or {})
        pr.config = None if bare else base_cfg
        files = render(pr, s)
        full = ok(ctx.run(files, argv(pr, "-r", "pol")))
        # the selection
        big = s.chance(30)
        n = 35 if big else 5
        cfg = dict(base_cfg)
        sev = None
        if bare:
            ctx.label("no configuration")
            cfg = base_cfg = {}
        elif s.chance(40):
            sev = s.pick("CSWEF")
            cfg["severity"] = SEVNAME[sev]
        dis, enn, ens = [], [], []
        if not bare and s.chance(60):
            dis = cfg["disable"] = self.ids(s, n)
        if not bare and s.chance(35):
            enn = cfg["enable_normal"] = self.ids(s, n)
        if not bare and s.chance(35):
            ens = cfg["enable_source"] = self.ids(s, n)
        keys = list(cfg)
        cfg = {k: cfg[k] for k in s.shuffle(keys)}
        a = []
        cd, ce = [], []
        if s.chance(50):
            cd = self.ids(s, n)
        if s.chance(50):
            ce = self.ids(s, n)
        if s.chance(25) and full:            # choose among the ids which occur
            occ = sorted({o.id for o in full})
            cd = cd + s.sample(occ, s.rng_int(0, 2))
            ce = ce + s.sample(occ, s.rng_int(0, 2))
        only = s.chance(20)
        lvl = s.pick("CSWEF") if s.chance(40) else None
        opts = [[s.pick(["-d", "--disable"]), x] for x in cd] + [[s.pick(["-e", "--enable"]), x] for x in ce]
        if only:
            opts.append([s.pick(["-E", "--only-enabled"])])
        if lvl:
            opts.append([s.pick(["-l", "--level"]), lvl])
        for o in s.shuffle(opts):
            a += o
        from proj import config
        f2 = dict(files)
        if not bare:
            pr.config = cfg
            f2["selint.conf"] = config(cfg)
        r = ctx.run(f2, argv(pr, *a, "-r", "pol"))
        if only and not ce:
            if r.rc != 64 or parse(r):
                raise Fail("--only-enabled without any enabled check: exit status %s" % r.rc, "usage")
            return
        got = ok(r)
        level = lvl or sev or "C"
        said = re.findall(r"^Warning: (.*), (?:dis|en)abled (?:on command line|in config), is not a valid", r.out.decode("utf-8", "replace"), re.M)
        valid = set(ALL) | {"F-001", "F-002"}
        for x in said:
            if x in valid:
                raise Fail("the check id %s is announced as invalid" % x, "announce")
        for i in cd + ce:
            if i not in valid and i not in said:
                raise Fail("the invalid check id %r is not announced" % i, "announce")

        def on(i):
            if RANK[i[0]] < RANK[level]:
                return False
            if only:
                return i in ce
            st = i not in dis
            if i in (ens if pr.source else enn):
                st = True
            if i in cd:
                st = False
            if i in ce:
                st = True
            return st
        want = [o for o in full if on(o.id)]
        if [o.raw for o in want] != [o.raw for o in got]:
            same(want, got, "selecting checks (%s; config %s)" % (" ".join(a), {k: v for k, v in cfg.items() if k not in base_cfg}))
            raise Fail("selecting checks changes the order of the findings", "order")
        if want and len(want) < len(full):
            ctx.nontrivial = (tuple(a), repr(cfg), tuple(o.raw for o in want))
            ctx.sample = ["options %s, config %s, source mode %s" % (a, {k: v for k, v in cfg.items() if k not in base_cfg}, pr.source),
                          "%d of %d findings remain: %s" % (len(want), len(full), sorted({o.id for o in want}))]
        for i in ("only" if only else "", "level " + lvl if lvl else "", "severity " + sev if sev else ""):
            if i:
                ctx.label(i)


class C06(Property):
    id = "C06"
    cases = {"quick": 22000, "thorough": 280000}
    rule = ("a case adds disable comments in a random documented spelling to random statements and block openings of a "
            "generated project; (a) the findings have to be those of the same project without the comments minus the named "
            "ones of the commented statement, or (b) those of the reference model under random layout; non-trivial if at "
            "least one finding is suppressed and one remains")
    assumptions = ["(a) leaves C-001 out if one of the comments names it: excepted lines do not take part in the ordering"]

    def case(self, s, ctx):
        occ_bias = s.chance(60)
        pr = rich(s, exc=s.pick([10, 25, 60]), exc_ids=None, fc=20)
        nodes = [(pf, n) for pf in pr.files for n in C04.nodes(pf.nodes) if pf.kind != "fc"]
        mode = s.below(3)
        if mode == 2:
            self.by_model(s, ctx, pr)
            return
        saved = {id(n): n.exc for _, n in nodes}
        for _, n in nodes:
            n.exc = None
        f0 = render(pr, s, PLAIN)
        where = {}
        for pf, n in nodes:
            where.setdefault((pf.base, n.line), []).append(n)
        sup = {k: v for k, v in f0.items() if k not in {pf.path for pf in pr.files}}
        full = ok(ctx.run(f0, argv(pr, "-r", "pol")))
        have = {}
        for o in full:
            for n in where.get((o.file, o.line), ()):
                have.setdefault(id(n), []).append(o.id)
        c001 = False
        for _, n in nodes:
            n.exc = saved[id(n)]
        for _, n in nodes:
            if n.exc and n.k != "optional_else" and occ_bias and id(n) in have and s.chance(70):
                # name checks which do report here
                ids = s.sample(sorted(set(have[id(n)])), s.rng_int(1, 2))
                if s.chance(40):
                    ids.insert(s.below(len(ids) + 1), s.pick(ALL))
                n.exc = "#selint-disable:" + s.pick(["", " "]) + s.pick([",", ", "]).join(ids)
                e = n.a.get("els")
                if n.k == "optional" and e is not None and not n.a.get("exc_open"):
                    e.exc = n.exc
            if n.exc and "C-001" in n.exc:
                c001 = True
        lines = {id(n): n.line for _, n in nodes}
        f1 = {pf.path: render_file(pf, s, PLAIN) for pf in pr.files}
        f1.update(sup)
        for pf, n in nodes:
            if n.line != lines[id(n)]:
                raise AssertionError("layout shifted")
        got = ok(ctx.run(f1, argv(pr, "-r", "pol")), " with disable comments")
        want = []
        dropped = 0
        for o in full:
            ns = [n for n in where.get((o.file, o.line), ()) if n.exc and n.k not in ("userdebug", "raw", "comment", "optional_else")]
            if any(o.id in model.exc_ids(n) for n in ns):
                dropped += 1
            else:
                want.append(o)
        if c001:
            want = [o for o in want if o.id != "C-001"]
            got = [o for o in got if o.id != "C-001"]
        same(want, got, "adding disable comments (beyond those they name)")
        if dropped and want:
            ctx.nontrivial = tuple(sorted(f1.items(), key=lambda x: x[0]))
            ctx.sample = ["%d of %d findings suppressed by %d comments, e.g. %s" % (
                dropped, len(full), sum(1 for _, n in nodes if n.exc),
                [n.exc for _, n in nodes if n.exc][:3]), "remaining: " + "; ".join(o.raw for o in want[:2])]
        ctx.label("suppressed findings", dropped)

    def by_model(self, s, ctx, pr):
        files = render(pr, s)
        try:
            m = model.Model(pr)
        except model.Ambiguous:
            return
        ids = set(gen.ALLIDS) - {"C-001"}
        if m.loops:
            return
        want = m.findings(ids)
        got = [o for o in ok(ctx.run(files, argv(pr, "-r", "pol"))) if o.id in ids]
        compare(want, got)
        ctx.label("compared with the model")
        if want:
            ctx.nontrivial = tuple(sorted((x.file, x.line, x.id) for x in want))


class C07(Property):
    id = "C07"
    cases = {"quick": 18000, "thorough": 260000}
    rule = ("a case runs one generated project with a random selection of checks without and with random combinations of "
            "-F, -S, --summary-only and -v, and recounts the printed findings; non-trivial if there are findings of at least two checks")
    assumptions = []

    def case(self, s, ctx):
        tiny = s.chance(25)
        pr = rich(s, fc=50, exc=s.pick([0, 10]), **(dict(nmods=(1, 1), ifs=(0, 1), te_body=30, nstmts=(0, 2)) if tiny else {}))
        pr.source = s.chance(80)
        broken = s.chance(5)
        files = render(pr, s)
        if broken:
            files["pol/zz_broken.te"] = "policy_module(zz_broken, 1.0)\nallow ;\n"
        if s.chance(2):
            # more findings of one check than fit in a small counter
            files["pol/mm_many.te"] = "policy_module(mm_many, 1.0)\ntype mm_many_t;\n" + s.pick([
                "allow mm_many_t self:file { write read };\n", "allow mm_many_t nn_t:file { write read };\n", "nn_read(mm_many_t)\nstray\n",
                "allow mm_many_t mm_many_t:file nnperm;\n", ";\n"]) * s.pick([126, 254, 255, 256, 257, 512, 1000, 1025, s.pick([2000, 33000, 66000])])
            ctx.label("many findings")
        sel = []
        k = s.below(4)
        if k == 1:
            sel = ["-l", s.pick("SWEF")]
        elif k == 2:
            sel = ["-E"] + [x for i in s.sample(ALL, s.rng_int(1, 4)) for x in ("-e", i)]
        elif k == 3:
            sel = [x for i in s.sample(ALL, s.rng_int(1, 12)) for x in ("-d", i)]
        base = ctx.run(files, argv(pr, *sel, "-r", "pol"))
        outs = parse(base)
        if broken:
            if base.rc != 70:
                raise Fail("exit status %s although a file does not parse" % base.rc, "status70")
        elif base.rc != 0:
            raise Fail("exit status %s without the fail option" % base.rc, "status0")
        if parse_summary(base) is not None:
            raise Fail("a summary is printed without being asked for", "summary")
        count = Counter(o.id for o in outs)
        for _ in range(s.rng_int(1, 3)):
            fl = s.chance(50)
            su = s.chance(60)
            so = s.chance(40)
            a = list(sel) + ([s.pick(["-F", "--fail"])] if fl else []) + ([s.pick(["-S", "--summary"])] if su else []) + \
                (["--summary-only"] if so else []) + (["-v"] if s.chance(15) else [])
            r = ctx.run(files, argv(pr, *a, "-r", "pol"))
            want_rc = 70 if broken else (65 if fl and outs else 0)
            if r.rc != want_rc:
                raise Fail("exit status %s instead of %s with %s and %d findings" % (r.rc, want_rc, a, len(outs)), "status")
            got = parse(r)
            if so and not broken:
                if got:
                    raise Fail("--summary-only prints findings: %s" % got[0].raw, "summary-only")
            elif not so and [o.raw for o in got] != [o.raw for o in outs]:
                same(outs, got, " ".join(a))
                raise Fail("%s changes the order of the findings" % a, "order")
            sm = parse_summary(r)
            if broken:
                continue
            if (sm is None) != (not (su or so)):
                raise Fail("summary %s with %s" % ("missing" if sm is None else "printed", a), "summary")
            if sm is not None:
                want = sorted(count.items(), key=lambda x: ("CSWEF".index(x[0][0]), x[0]))
                if sm[0] != want:
                    raise Fail("summary %s does not match the findings printed %s" % (sm[0], want), "counts")
                if sm[1] != (not want):
                    raise Fail("summary %s '(none)' with %d findings" % ("says" if sm[1] else "does not say", len(outs)), "none")
        ctx.label("no findings" if not outs else "findings")
        if len(count) > 1:
            ctx.nontrivial = (tuple(sel), tuple(sorted(count.items())), tuple(o.raw for o in outs))
            ctx.sample = ["options %s" % a, "counts %s" % dict(count)]


class C08(Property):
    id = "C08"
    cases = {"quick": 20000, "thorough": 150000}
    rule = ("a case scans one generated project (single declarations) as one directory and again two or three times: other creation "
            "order, other spelling of the path, several directories, all files named in random order, the same run again; "
            "non-trivial if there are findings")
    assumptions = ["names declared once per project, templates not recursive"]

    def case(self, s, ctx):
        kw = dict(marks=70, ifs=(1, 4), kinds=kinds(call=30, decl=5)) if s.chance(40) else {}
        pr = rich(s, nmods=(2, 5), fc=40, tmpls=(0, 2), tmpl_calls=s.pick([10, 40]), if_tmpl_calls=s.pick([0, 8, 30]), **kw)
        pr.config = dict(pr.config or {})
        pr.config["ordering_rules"] = s.pick(ORDERINGS)
        files = render(pr, s)
        if single(pr) is None:
            return
        base = ok(ctx.run(files, argv(pr, "-r", "pol")))
        for _ in range(s.rng_int(2, 3)):
            keys = s.shuffle(sorted(files)) if s.chance(70) else sorted(files)
            f2 = {k: files[k] for k in keys}
            top = sorted({k.split("/")[1] for k in files if k.startswith("pol/")})
            allf = [k for k in keys if k.startswith("pol/")]
            k = s.below(6)
            if k == 0:
                paths = ["pol"]
            elif k == 1:
                paths = [s.pick(["./pol", "pol/", "pol//", "pol/.", "./pol/", "pol/../pol", "@CWD@/pol", "@CWD@/pol/", "../" + "@CWD@".replace("@CWD@", "@BASE@") + "/pol"])]
            elif k == 2:
                paths = s.shuffle([s.pick(["pol/%s", "./pol/%s", "pol//%s", "@CWD@/pol/%s"]) % t for t in top])
            elif k == 3:
                paths = s.shuffle([s.pick(["%s", "%s", "./%s", "@CWD@/%s"]) % f for f in allf])
            elif k == 4:
                d = s.pick(top)
                paths = s.shuffle(["pol/" + t for t in top if t != d] + [f for f in allf if f.split("/")[1] == d])
            else:
                paths = ["."]
            paths = [p if "@BASE@" not in p else "pol" for p in paths]
            rec = ["-r"] if k != 3 or s.chance(60) else []
            r = ctx.run(f2, argv(pr, *rec, *paths))
            got = ok(r)
            same(base, got, "scanning the same files as %s" % " ".join(rec + paths))
            ctx.label("variant %d" % k)
        mark(ctx, base, files, (tuple(paths),))


class C09(Property):
    id = "C09"
    cases = {"quick": 17000, "thorough": 220000}
    rule = ("a case checks all files of a generated project, then only a random part of them with the rest given as context "
            "(one or two context paths, partly overlapping with the scanned path); the findings have to be the part of the "
            "first run's which concerns the checked files; non-trivial if there are findings on both sides of the split")
    assumptions = ["names declared once per project, templates not recursive"]

    def case(self, s, ctx):
        kw = dict(marks=70, ifs=(1, 4), kinds=kinds(call=30, decl=5)) if s.chance(40) else {}
        pr = rich(s, nmods=(2, 5), fc=40, tmpls=(0, 2), tmpl_calls=s.pick([10, 40]), if_tmpl_calls=s.pick([0, 8]), **kw)
        pr.config = dict(pr.config or {})
        pr.config["ordering_rules"] = s.pick(ORDERINGS)
        files = render(pr, s)
        if single(pr) is None:
            return
        base = ok(ctx.run(files, argv(pr, "-r", "pol")))
        k = s.below(3)
        pol = {pf.path for pf in pr.files}
        if k == 0:                               # by directory
            ds = sorted({p.split("/")[1] for p in pol})
            cd = set(s.subset(ds, 50))
            part = {p for p in pol if p.split("/")[1] in cd}
        elif k == 1:                             # by module
            ms = sorted({pf.mod for pf in pr.files})
            cm = set(s.subset(ms, 50))
            part = {pf.path for pf in pr.files if pf.mod in cm}
        else:
            part = set(s.subset(sorted(pol), 50))
        f2 = {}
        two = s.chance(40)
        for p, t in files.items():
            if p in part:
                f2[p.replace("pol/", "ctx2/" if two and s.chance(50) else "ctx1/", 1)] = t
            elif p.startswith("pol/") and p not in pol and s.chance(40):
                f2[p.replace("pol/", s.pick(["ctx1/", "ctx2/"] if two else ["ctx1/"]), 1)] = t
            else:
                f2[p] = t
        for d in ["pol", "ctx1"] + (["ctx2"] if two else []):
            if not any(x.startswith(d + "/") for x in f2):
                f2[d] = ("dir",)
        keys = s.shuffle(sorted(f2)) if s.chance(50) else list(f2)
        f2 = {x: f2[x] for x in keys}
        ctxs = ["ctx1"] + (["ctx2"] if two else [])
        if s.chance(25):
            ctxs.append(s.pick(["pol", "./pol"]))      # also reached as context: still checked
        a = []
        for c in s.shuffle(ctxs):
            a += ["--context", c] if s.chance(50) else ["--context=" + c]
        src = argv(pr)
        if "-s" in src and s.chance(30):
            src.remove("-s")                     # --context implies source mode
        got = ok(ctx.run(f2, src + a + ["-r", "pol"]), " split into checked files and context")
        checked = {pf.base for pf in pr.files if pf.path not in part}
        want = [o for o in base if o.file in checked]
        same(want, got, "giving %s as context" % sorted(part))
        other = len(base) - len(want)
        ctx.label("split kind %d" % k)
        if want and other:
            mark(ctx, want, f2, (tuple(sorted(part)), tuple(a)))


class C10(Property):
    id = "C10"
    cases = {"quick": 60000, "thorough": 900000}
    rule = ("a case builds a random directory tree of policy files, look-alikes, other files, hidden directories, symbolic links and "
            "support files, scans it with random paths and options, and compares the set of scanned files (each carries one "
            "known finding) with the documented one; non-trivial if some policy file is scanned and another entry is not")
    assumptions = ["directory names starting with '..' and hidden directories named as arguments are left out",
                   "symbolic links named like policy files are left out (they are opened), other links must not be followed"]

    def name(self, s):
        self.n += 1
        k = s.wpick([(8, "pol"), (3, "like"), (2, "other"), (1, "short"), (1, "dot")])
        i = self.n
        ext = s.wpick([(3, ".te"), (2, ".if"), (2, ".fc")])
        if k == "pol":
            return s.pick(["m%d", "long_module_name_%d", "a.b%d", "M%d", "m-%d", "%d", "m %d", "x%d.te", "x%d.fc"]) % i + ext, ext
        if k == "dot":
            return ".h%d" % i + ext, ext
        if k == "short":
            return s.pick(["te", "if", "fc", "x", "e", "a.", "c%d"]) + "", None
        if k == "like":
            return "n%d" % i + s.pick([".tee", ".te~", ".TE", ".te.bak", "te", ".spt", ".iff", ".f", ".fcc", ".t", ".if.orig", "_te"]), None
        return s.pick(["README", "Makefile", "notes%d.txt" % i, "modules.conf.old", "build.conf", "x.conf",
                       "my_access_vectors", "access_vectors.c", "xmodules.conf"]), None

    def content(self, path, ext):
        b = path.rsplit("/", 1)[-1]
        if ext == ".te":
            return "module zzother 1.0;\npermissive zz_t;\n"          # S-006 and W-009
        if ext == ".if":
            return "interface(`i%d',`\n\tallow a_t b_t:file { write read };\n')\n" % self.n
        return "/usr/x\tnosuch_u:nosuch_r:nosuch_t\n"

    ID = {".te": "W-009", ".if": "C-004", ".fc": "E-003"}

    def tree(self, s, d, depth, hidden):
        for _ in s.many(0 if depth else 1, 5, 70):
            k = s.wpick([(10, "file"), (4 if depth < 4 else 0, "dir"), (2, "link"), (1, "polidir")])
            if k == "file":
                nm, ext = self.name(s)
                p = d + "/" + nm
                if p in self.files or nm in self.bases:
                    continue
                self.bases.add(nm)
                self.files[p] = self.content(p, ext) if ext else "junk %s\nallow ;\n" % nm
                if ext:
                    self.pol[p] = (ext, hidden)
            elif k == "link":
                self.n += 1
                tgt = s.pick([".", "..", "../..", "/nonexistent", "@out", "@out/o.te"])
                p = "%s/l%d%s" % (d, self.n, s.pick(["", "", ".d", ".txt"]))
                up = "../" * (d.count("/") + 1)
                self.files[p] = ("link", tgt.replace("@out", up + "out"))
            else:
                self.n += 1
                nm = s.wpick([(5, "d%d" % self.n), (2, ".d%d" % self.n), (1, "d.%d" % self.n), (1, ".git"), (1, "te"),
                              (1, "modules"), (1, ".x")])
                if k == "polidir":
                    nm = s.pick(["dir%d.te", "dir%d.if", "dir%d.fc", ".dir%d.te"]) % self.n
                p = d + "/" + nm
                if p in self.files or p in self.dirs:
                    continue
                self.dirs[p] = hidden or nm.startswith(".")
                self.files[p] = ("dir",)
                self.tree(s, p, depth + 1, hidden or nm.startswith("."))

    def case(self, s, ctx):
        self.n = 0
        self.files, self.pol, self.dirs, self.bases = {}, {}, {}, set()
        self.files["out/o.te"] = "module zzother 1.0;\npermissive zz_t;\n"
        self.files["out/d/p.te"] = "module zzother 1.0;\npermissive zz_t;\n"
        self.bases |= {"o.te", "p.te"}
        self.dirs["top"] = False
        self.files["top"] = ("dir",)
        self.tree(s, "top", 0, False)
        rec = s.chance(75)
        hid = s.chance(30)
        src = s.chance(50)
        # support files
        supp = {}
        for nm in ("modules.conf", "access_vectors", "obj_perm_sets.spt"):
            if s.chance(30):
                d = s.pick(sorted(self.dirs))
                supp[nm] = d
                self.files[d + "/" + nm] = {"modules.conf": "foo = module\n", "access_vectors": "class file\n{\n\tread\n\twrite\n}\n",
                                            "obj_perm_sets.spt": "define(`read_file_perms',`{ read }')\n"}[nm]
        # arguments
        args = []
        k = s.below(3)
        plain_dirs = [d for d in sorted(self.dirs) if not d.rsplit("/", 1)[-1].startswith(".")]
        pf = sorted(self.pol)
        if k == 0:
            args = ["top"]
        elif k == 1:
            c = [d for d in plain_dirs]
            first = s.pick(c)
            args = [first]
            for d in s.sample([x for x in pf if not x.startswith(first + "/")], 2):
                args.append(d)
        else:
            args = s.sample(pf, s.rng_int(1, 4)) or ["top"]
            if s.chance(40):
                d = s.pick(plain_dirs)
                if not any(a.startswith(d + "/") or a == d for a in args):
                    args.append(d)
        if s.chance(8):
            # a file in the current directory, with the shortest of names
            f = s.pick(["a.te", "b.if", "c.fc", "d1.te", "-.te"])
            self.pol[f] = (f[-3:], False)
            self.files[f] = self.content(f, f[-3:])
            args.insert(s.below(len(args) + 1), f if f[0] != "-" else "./" + f)
        plain_args = list(args)
        if s.chance(10):
            args = [s.pick(["./%s", "@CWD@/%s"]) % a if not a.startswith("./") else a for a in args]
        elif s.chance(10):
            # through a directory below and back
            for i, a in enumerate(args):
                below = [x for x in self.dirs if x.startswith(a + "/") and "/" not in x[len(a) + 1:]]
                if below:
                    args[i] = s.pick(sorted(below)) + "/.."
        plain_args = [a.replace("./", "", 1) if a.startswith("./") else a for a in plain_args]
        links = [x for x in sorted(self.files) if self.files[x][0] == "link" and x[-3:] not in self.ID]
        if links and s.chance(15):
            args.insert(s.below(len(args) + 1), s.pick(links))
            ctx.label("link as argument")
        # what has to be scanned
        want = []
        reach_supp = {}

        def hidden_below(p, d):
            return any(c.startswith(".") for c in p[len(d) + 1:].split("/")[:-1])

        def covered(p):
            for a in plain_args:
                if a == p:
                    return True
                if a in self.dirs and rec and p.startswith(a + "/") and (hid or not hidden_below(p, a)):
                    return True
            return False
        for p, (ext, _) in self.pol.items():
            if covered(p):
                want.append((p.rsplit("/", 1)[-1], ext))
        for nm, d in supp.items():
            reach_supp[nm] = covered(d + "/" + nm)
        a = (["-s"] if src else []) + (["-r"] if rec else []) + (["--scan-hidden-dirs"] if hid else [])
        opts = s.shuffle(a) if s.chance(50) else a
        sel = ["-E", "-e", "W-009", "-e", "C-004", "-e", "E-003"]
        keys = s.shuffle(sorted(self.files)) if s.chance(40) else list(self.files)
        keys.sort(key=lambda x: isinstance(self.files[x], tuple) and self.files[x][0] == "link")
        r = ctx.run({x: self.files[x] for x in keys}, opts + sel + s.shuffle(args))
        outs = ok(r)
        got = Counter((o.file, "." + o.file.rsplit(".", 1)[-1]) for o in outs)
        exp = Counter(want)
        if got != exp:
            raise Fail("scanning %s with %s: %s" % (args, opts, "; ".join(
                ["not checked: %s" % f for f, _ in sorted(exp - got)[:4]] + ["wrongly checked: %s" % f for f, _ in sorted(got - exp)[:4]])),
                "missing" if exp - got else "extra")
        for o in outs:
            if o.id != self.ID["." + o.file.rsplit(".", 1)[-1]]:
                raise Fail("%s is not handled as its kind of file: %s" % (o.file, o.raw), "kind")
        t = r.out.decode("utf-8", "replace")
        if not rec:
            for d in [x for x in plain_args if x in self.dirs]:
                if "Skipping" not in t or d not in t:
                    raise Fail("no note about the skipped directory %s" % d, "note")
        for nm in ("modules.conf", "access_vectors", "obj_perm_sets.spt"):
            said = "Failed to locate %s" % nm in t
            if src and said == reach_supp.get(nm, False):
                raise Fail("%s %s although it is %s the scanned paths" % (
                    nm, "not found" if said else "not announced as missing", "in" if said else "not in"), "support")
            if not src and said:
                raise Fail("%s looked for in normal mode" % nm, "support-normal")
        left = [p for p in self.files if p not in self.dirs and not any(p.endswith("/" + b) for b, _ in want)]
        ctx.label("hidden scanned" if hid else "hidden skipped")
        if want and left:
            ctx.nontrivial = (tuple(sorted(self.files)), tuple(args), tuple(opts))
            ctx.sample = ["tree: " + " ".join(sorted(self.files))[:400], "args: %s %s" % (opts, args),
                          "checked: %s" % sorted(f for f, _ in want)[:8]]


ANSI = re.compile(r"\x1b\[[0-9;]*m")


class C22(Property):
    id = "C22"
    cases = {"quick": 14000, "thorough": 180000}
    rule = ("a case runs one generated project (a third with odd file names) plainly and again with random combinations of "
            "--color, -v and --debug-parser; the coloured output has to equal the plain one once escape sequences are removed, "
            "the verbose output has to contain the plain one line by line, exit statuses and findings have to agree and every "
            "finding has to have the documented form; non-trivial if there are findings")
    assumptions = []
    ODD = ["a b", "x%sy", "%n", "100%", "we:ird", "x%d%s%p", "(C-001)", "-dash", "\u00e4\u00f6", "verylongfilenamewithmorethantwentychars",
           "tab\there", "a'b", "q\"q", "$1", "back\\slash", "x: 1: (W)"]

    def case(self, s, ctx):
        pr = rich(s, fc=60, exc=s.pick([0, 10]))
        pr.source = s.chance(80)
        if s.chance(35):
            for pf in pr.files:
                if s.chance(60):
                    d, b = pf.path.rsplit("/", 1)
                    stem = s.pick(self.ODD) if s.chance(80) else s.pick(["x", "ab", "Long_"]) * s.pick([10, 20, 31, 32, 33, 50, 60, 70, 80, 120])
                    pf.path = "%s/%s.%s" % (d, stem[:240] + s.pick(["", pf.mod]), pf.kind)
        seen = set()
        pr.files = [pf for pf in pr.files if not (pf.path in seen or seen.add(pf.path))]
        files = render(pr, s)
        extra = s.pick([[], [], ["-S"], ["-F"], ["-F", "-S"], ["--summary-only"]])
        if s.chance(10):
            files["pol/broken.te"] = "policy_module(broken, 1.0)\n%s\n" % s.pick(["allow ;", "type x_t", "%s ("])
        base = ctx.run(files, argv(pr, *extra, "-r", "pol"))
        again = ctx.run(files, argv(pr, *extra, "-r", "pol"))
        if base.out != again.out or base.rc != again.rc or base.err != again.err:
            raise Fail("two identical runs differ", "repeat")
        plain = base.out.decode("utf-8", "replace")
        if "\x1b" in plain:
            raise Fail("escape sequences although standard output is no terminal", "auto")
        outs = parse(base)
        names = {pf.path.rsplit("/", 1)[-1] for pf in pr.files} | {"broken.te"}
        raw = [l for l in plain.split("\n") if re.search(r"\([CSWEF]-\d{3}\)$", l)]
        if len(raw) != len(outs):
            raise Fail("a finding does not have the documented form: %r" % [l for l in raw if not FIND.match(l)][0], "form")
        for l in raw:
            b = max((n for n in names if l.startswith(n + ":")), key=len, default=None)
            m = b is not None and re.match(r": *\d+: \(([CSWEF])\): .*\(([CSWEF])-\d{3}\)$", l[len(b):])
            if not m or m.group(1) != m.group(2):
                raise Fail("a finding does not name its file or level: %r" % l, "form")
        for _ in range(2):
            col = s.pick([None, "on", "off", "auto"])
            v = s.chance(50)
            dbg = s.chance(25)
            a = ([["--color", col], ["--color=" + col]][s.below(2)] if col else []) + \
                ([s.pick(["-v", "--verbose"])] if v else []) + (["--debug-parser"] if dbg else [])
            # standard input, output, errors: a terminal?
            tty = s.below(8) if s.chance(40) else 0
            r = ctx.run(files, argv(pr, *a, *extra, "-r", "pol"), tty=tty)
            if tty:
                ctx.label("colour %s, output %sa terminal" % (col or "default", "" if tty & 2 else "not "))
            if tty & 2 and col in (None, "auto"):
                col = "on"
            if r.rc != base.rc:
                raise Fail("exit status %s instead of %s with %s" % (r.rc, base.rc, a), "status")
            t = r.out.decode("utf-8", "replace")
            if col == "on":
                if "\x1b" not in t and raw:
                    raise Fail("no colour with %s%s" % (a, ", output to a terminal" if tty & 2 else ""), "colour")
                if raw and not any("\x1b" in l for l in t.split("\n") if re.search(r"-\d{3}\)", l)):
                    raise Fail("findings are not coloured with %s%s" % (a, ", output to a terminal" if tty & 2 else ""), "colour")
            elif "\x1b" in t:
                raise Fail("escape sequences with %s%s" % (a, ", although output is no terminal" if tty else ""), "nocolour")
            t = ANSI.sub("", t)
            if "\x1b" in t:
                raise Fail("unknown escape sequence", "escape")
            if not v and not dbg:
                if t != plain:
                    raise Fail("output differs with %s: %s" % (a, _firstdiff(plain, t)), "differ")
            else:
                it = iter(t.split("\n"))
                for l in plain.split("\n"):
                    if l.strip() and not any(x == l for x in it):
                        raise Fail("line missing or out of order with %s: %r" % (a, l), "lost")
                if [l for l in t.split("\n") if re.search(r"\([CSWEF]-\d{3}\)$", l)] != raw:
                    raise Fail("findings differ with %s" % a, "findings")
        ctx.label("odd names" if any(pf.base.split(".")[0] != pf.mod for pf in pr.files) else "plain names")
        if outs:
            ctx.nontrivial = (tuple(o.raw for o in outs), tuple(a), tuple(extra))
            ctx.sample = ["options %s" % (a + extra)] + raw[:3]


def _firstdiff(a, b):
    for x, y in zip(a.split("\n"), b.split("\n")):
        if x != y:
            return "%r / %r" % (x, y)
    return "length"


class C23(Property):
    id = "C23"
    cases = {"quick": 32000, "thorough": 450000}
    rule = ("a case scans a generated project alone and together with a second one sharing no names, or with statements about new "
            "names appended to one of its files; the findings on the other files must not change; non-trivial if there are such findings")
    assumptions = ["the added modules' names share no prefix with the others'"]

    def case(self, s, ctx):
        pr = rich(s, nmods=(1, 3), fc=50, exc=s.pick([0, 10]), marks=s.pick([0, 50]))
        pr.config = dict(pr.config or {})
        pr.config["ordering_rules"] = s.pick(ORDERINGS)
        files = render(pr, s)
        try:
            model.Model(pr)
        except model.Ambiguous:
            return                 # a name declared by two modules: which one counts depends on the order of the files
        base = ok(ctx.run(files, argv(pr, "-r", "pol")))
        k = s.wpick([(5, 0), (3, 1), (2, 2), (2, 3)])
        if k == 3 and not pr.by("fc") or k == 2 and not pr.by("if"):
            k = 0
        f2 = dict(files)
        if k == 0:
            q = rich(s, nmods=(1, 3), fc=60, tmpls=(0, 2), tmpl_calls=s.pick([0, 30]), config=0, modconf=100,
                     modnames=["qone", "qtwo", "qthree"], ghostpre="q", neutral=True, gen_fc=40, marks=s.pick([0, 50]))
            fq = render(q, s, sup=False)
            try:
                if any("q" not in n for (_, n), o in model.Model(q).decl.items() if o != "__assumed__"):
                    return         # a template made a name which is not new
            except model.Ambiguous:
                return
            for p, t in fq.items():
                if p != "pol":
                    f2[p.replace("pol/", s.pick(["pol/", "pol/0/", "pol/zz/"]), 1)] = t
            if pr.modconf is not None and q.modconf:
                f2["pol/modules.conf"] = f2["pol/modules.conf"].rstrip("\n") + "\n" + "".join("%s = %s\n" % (a, b) for a, b in q.modconf if a.startswith("q"))
            what = "adding an unrelated module"
            keep = {pf.base for pf in pr.files}
            if s.chance(2):
                # so many that a counter of eight bits has come round
                n = s.pick([30, 100, 255, 256, 300])
                qf = s.pick(q.by("te"))
                body = render_file(PFile(qf.mod, "te", qf.nodes[1:], qf.path), s, layout(s, crlf=False))
                for i in range(n):
                    f2["pol/zq/qbulk%d.te" % i] = "policy_module(qbulk%d, 1.0)\n" % i + body
                what = "adding %d unrelated modules" % n
                ctx.label("many modules")
        else:
            kd = {1: "te", 2: "if", 3: "fc"}[k]
            pf = s.pick(pr.by(kd))
            q = gen.Gen(s, gen.Prof(kinds=kinds(call=0, stray=0), modnames=["qone"], ghostpre="q", neutral=True, nmods=(1, 1), tmpls=(0, 0),
                                    ifs=(1, 2) if k == 2 else (0, 0), fc=100 if k == 3 else 0, te_body=100, config=0, av=0, spt=0,
                                    modconf=0)).project()
            nodes = q.by(kd)[0].nodes
            nodes = nodes[1:] if k == 1 else nodes
            if nodes and kd != "if" and s.chance(4):
                nodes = nodes * s.pick([20, 64, 128, 256, 257, 600, 1100])
                nodes = nodes[:6000]
                ctx.label("many statements")
            pf2 = PFile(pf.mod, kd, pf.nodes + nodes, pf.path)
            f2[pf.path] = render_file(pf2, s, layout(s, crlf=False))
            what = "adding statements about new names to %s" % pf.path
            keep = {f.base for f in pr.files if f is not pf}
        keys = s.shuffle(sorted(f2)) if s.chance(50) else list(f2)
        got = ok(ctx.run({x: f2[x] for x in keys}, argv(pr, "-r", "pol")), " after " + what)
        want = [o for o in base if o.file in keep]
        got = [o for o in got if o.file in keep]
        same(want, got, what)
        ctx.label("added module" if k == 0 else "added statements to a %s file" % kd)
        mark(ctx, want, f2, (k,))


PROPERTIES = [C04(), C05(), C06(), C07(), C08(), C09(), C10(), C22(), C23()]
