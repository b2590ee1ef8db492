"""Configuration (C20) and symbol sources (C21)."""
import copy
import re

import gen
import model
from engine import Fail, Property
from proj import FIND, access_vectors, argv, compare, fatal, modules_conf, obj_perm_sets, parse, parse_summary, render
from props_meta import ALL, RANK, SEVNAME, ok
from props_model import kinds

TRUE = ["true", "True", "TRUE", "yes", "Yes", "YES"]
FALSE = ["false", "False", "FALSE", "no", "No", "NO"]
LISTS = ("disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros",
         "custom_te_simple_macros", "ordering_requires")
DEFAULTS = {"severity": "convention", "disable": [], "enable_normal": [], "enable_source": [], "assume_users": [],
            "assume_roles": [], "custom_fc_macros": [], "custom_te_simple_macros": [], "ordering_rules": "refpolicy-lax",
            "ordering_requires": list(gen.ORDER_FL), "ordering_requires_same_flavor": "true",
            "skip_checking_generated_fcs": "true"}
MODEL_IDS = set(gen.ALLIDS) - {"C-001"}


class Conf:
    """writes configuration files in a random layout"""

    def __init__(self, s, wild):
        self.s = s
        self.wild = wild

    def gap(self, nl=True):
        s = self.s
        if not self.wild:
            return ""
        o = ""
        while s.chance(18):
            k = s.below(6)
            if k < 3 or not nl:
                o += s.pick([" ", "\t", "  "])
            elif k == 3:
                o += "\n"
            elif k == 4:
                o += s.pick(["# comment\n", "# severity = \"fatal\"\n", "// x\n"])
            else:
                o += s.pick(["/* c */", "/* a\n b = { */", "/**/"])
        return o

    def word(self, w):
        s = self.s
        q = s.below(3) if self.wild else 0
        if not re.match(r"^[A-Za-z][A-Za-z0-9_-]*$", w):
            q = q % 2
        return ['"%s"', "'%s'", "%s"][q] % w

    def value(self, k, v):
        if isinstance(v, list):
            ws = lambda: self.s.pick(["", "", " ", "\n", "\n\t", "  "]) if self.wild else ""
            o = "{" + ws()
            for i, w in enumerate(v):
                if i:
                    o += "," + ws() + ("" if self.wild else " ")
                o += self.word(w) + ws()
            return o + "}"
        return self.word(v)

    def text(self, cfg):
        s = self.s
        o = self.gap()
        ks = list(cfg)
        if self.wild and s.chance(60):
            ks = s.shuffle(ks)
        for k in ks:
            sep = s.pick([" ", "", "\t", "  "]) if self.wild else " "
            o += k + sep + "=" + (s.pick([" ", "", "\n", "\t", " \n  "]) if self.wild else " ") + self.value(k, cfg[k]) + self.gap(False)
            o += s.pick(["\n", "\n", "\n", " ", "\n\n"]) if self.wild else "\n"
        return o + self.gap()


def gen_cfg(s, pr):
    c = {}

    def maybe(pct, k, f):
        if s.chance(pct):
            c[k] = f()
    maybe(40, "severity", lambda: SEVNAME[s.pick("CSWEF")])
    n = s.pick([3, 3, 12])
    ids = lambda: s.sample(ALL, s.rng_int(0, n))
    maybe(40, "disable", ids)
    maybe(30, "enable_normal", ids)
    maybe(30, "enable_source", ids)
    maybe(60, "assume_users", lambda: s.subset(["system_u", "staff_u", "user_u", "ghost_u"], 50))
    maybe(60, "assume_roles", lambda: s.subset(["object_r", "system_r", "sysadm_r", "ghost_r"], 50))
    maybe(50, "custom_fc_macros", lambda: s.subset(gen.FC_MACROS + ["other"], 50))
    maybe(50, "custom_te_simple_macros", lambda: s.subset(["simple_macro", "my_macro", "stray_word"], 50))
    for k in ("assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros"):
        if k in c and s.chance(20):          # long lists
            c[k] = s.shuffle(c[k] + ["x%d_%s" % (i, k[-8]) for i in range(s.rng_int(5, s.pick([9, 30, 80])))])
    maybe(40, "ordering_rules", lambda: s.pick(["refpolicy", "refpolicy-light", "refpolicy-lax"]))
    maybe(50, "ordering_requires", lambda: s.shuffle(gen.ORDER_FL))
    maybe(50, "ordering_requires_same_flavor", lambda: s.pick(TRUE + FALSE))
    maybe(50, "skip_checking_generated_fcs", lambda: s.pick(TRUE + FALSE))
    return c


BAD_SEV = ["", "Convention", "C", "warn", "warnings", "info", "style ", "fatal error", "none", "W", "errors", "conventio", "fatale"]
BAD_RULES = ["", "Refpolicy", "lax", "refpolicy_lax", "light", "refpolicy-", "none", "refpolicy-laxx", "refpolic"]
BAD_BOOL = ["", "1", "0", "on", "off", "y", "n", "tRUE", "trueish", "True ", "fALSE", "falsee", "nope", "yess", "t"]
BAD_FL = ["Type", "types", "user", "perm", "", "attributes", "role_attribute", "boolean", "interface", "attribute_roles", "clas"]


def invalid(s, cfg):
    """-> (description, configuration text with one mistake)"""
    c = dict(cfg)
    w = Conf(s, s.chance(50))
    k = s.below(9)
    if k == 0:
        c["severity"] = s.pick(BAD_SEV)
        return "severity " + c["severity"], w.text(c)
    if k == 1:
        c["ordering_rules"] = s.pick(BAD_RULES)
        return "ordering_rules " + c["ordering_rules"], w.text(c)
    if k in (2, 3):
        b = s.pick(["ordering_requires_same_flavor", "skip_checking_generated_fcs"])
        c[b] = s.pick(BAD_BOOL)
        return "%s %r" % (b, c[b]), w.text(c)
    if k in (4, 5):
        fl = s.shuffle(gen.ORDER_FL)
        m = s.below(4)
        if m == 0:
            fl = fl[:s.below(6)]
        elif m == 1:
            fl.insert(s.below(7), s.pick(gen.ORDER_FL))
        elif m == 2:
            i = s.below(6)
            fl[i] = s.pick([x for j, x in enumerate(fl) if j != i])
        else:
            fl[s.below(6)] = s.pick(BAD_FL)
        c["ordering_requires"] = fl
        return "ordering_requires %s" % fl, w.text(c)
    if k == 6:
        x = s.pick(list(DEFAULTS))
        d = DEFAULTS[x]
        c[x] = d
        t = w.text(c)
        n = s.pick([x + "s", x.upper(), "selint_" + x, x[:-1], "unknown_option"])
        return "unknown option " + n, re.sub(r"(?m)(?<![\w-])%s(?=\s*=)" % x, n, t) if False else t + "\n%s = %s\n" % (n, w.value(x, d))
    base = w.text(c)
    if k == 7:
        bad = s.pick(["severity \"style\"", "severity = { \"style\" }", "disable = { C-001 C-004 }", "severity =", "disable = ",
                      "severity = \"style", "disable = { C-001", "disable = { \"C-001\" ", "}", "{", "= style", "disable = { , }",
                      "ordering_rules = { refpolicy }", "severity == style", "disable { C-001 }", "severity = style error",
                      "severity += \"style\"", "disable = { { C-001 } }", "severity = 'style"])
        return "syntax: " + bad, base + "\n" + bad + "\n"
    c["severity"] = s.pick(["style", "error"])
    t = Conf(s, False).text(c)
    i = t.index("severity = ") + 11
    return "severity without a value", t[:i] + "\n" + s.pick(["disable = { C-001 }\n", "# end\n"])


class C20(Property):
    id = "C20"
    cases = {"quick": 36000, "thorough": 500000}
    rule = ("a case runs a generated project under a random configuration file (random subset of all settings, order, quoting, comments, "
            "line breaks, location, level on the command line) and compares the findings with the reference model's under those "
            "settings, and with the run where defaults are written out; or under one with a single mistake, which has to be refused; "
            "non-trivial if a setting changes the expected findings, or the configuration is refused")
    assumptions = ["the reference model lib/model.py; C-001 under the ordering rules is C19's"]

    def project(self, s):
        return gen.Gen(s, gen.Prof(nmods=(1, 3), fc=70, ifs=(0, 2), tmpls=(0, 1), fc_macros=2, gen_fc=s.pick([0, 30]),
                                   kinds=kinds(stray=5, req=10, semi=2), nstmts=(0, 6), config=0, req_ifdef=8,
                                   exc=s.pick([0, 0, 10]))).project()

    def case(self, s, ctx):
        pr = self.project(s)
        pr.source = s.chance(75)
        files = render(pr, s)
        cfg = gen_cfg(s, pr)
        if s.chance(35):
            return self.refuse(s, ctx, pr, files, cfg)
        pr.config = cfg
        files["selint.conf"] = Conf(s, s.chance(75)).text(cfg)
        src = ["-s"] if pr.source else []
        loc = s.below(6)
        if loc == 0:
            files["sysconf/selint.conf"] = files.pop("selint.conf")
            a = []
        else:
            a = [["-c", "selint.conf"], ["--config", "selint.conf"], ["--config=selint.conf"], ["-cselint.conf"],
                 ["-c", "@CWD@/selint.conf"]][loc - 1]
            if s.chance(25):
                files["sysconf/selint.conf"] = s.pick(["severity = \"fatal\"\n", "severity = bogus\n", "disable = { W-001, E-010 }\n"])
        lvl = s.pick("CSWEF") if s.chance(30) else None
        l = [s.pick(["-l", "--level"]), lvl] if lvl else []
        opts = s.shuffle([src, a, l, ["-r"]])
        args = [x for o in opts for x in o] + ["pol"]
        r = ctx.run(files, args)
        outs = ok(r, " under configuration %s" % cfg)
        level = lvl or {v: k for k, v in SEVNAME.items()}[cfg.get("severity", "convention")]
        en = cfg.get("enable_source" if pr.source else "enable_normal", [])
        dis = cfg.get("disable", [])

        def on(i):
            return RANK[i[0]] >= RANK[level] and (i in en or i not in dis)
        for o in outs:
            if not on(o.id):
                raise Fail("%s is reported although it is switched off by %s %s" % (o.id, cfg, l), "off-" + o.id)
        t = (r.out + r.err).decode("utf-8", "replace")
        if "not a valid check id" in t:
            raise Fail("a valid check id is called invalid", "idwarn")
        try:
            m = model.Model(pr)
        except model.Ambiguous:
            m = None
        if m is not None and not m.loops:
            want = [f for f in m.findings(MODEL_IDS) if on(f.id)]
            compare(want, [o for o in outs if o.id in MODEL_IDS], " under configuration %s" % cfg)
            bare = copy.copy(pr)
            bare.config = {}
            try:
                other = model.Model(bare).findings(MODEL_IDS)
                if sorted(map(repr, other)) != sorted(map(repr, want)):
                    ctx.nontrivial = (repr(cfg), lvl, tuple(sorted(map(repr, want))))
                    ctx.sample = ["configuration: %r" % files["sysconf/selint.conf" if loc == 0 else "selint.conf"][:500],
                                  "options %s; %d findings instead of %d by default" % (args, len(want), len(other))]
            except model.Ambiguous:
                pass
            ctx.label("compared with the model")
        # defaults written out, or left out again
        full = dict(cfg)
        for k, v in DEFAULTS.items():
            if k not in full and s.chance(70):
                full[k] = v
            elif k in full and full[k] == v and s.chance(50):
                del full[k]
        f2 = dict(files)
        f2["explicit.conf"] = Conf(s, s.chance(40)).text(full)
        r2 = ctx.run(f2, src + ["-c", "explicit.conf"] + l + ["-r", "pol"])
        got = ok(r2, " with the defaults written out")
        if [o.raw for o in got] != [o.raw for o in outs]:
            x = [o.raw for o in outs if o.raw not in {g.raw for g in got}] + [g.raw for g in got if g.raw not in {o.raw for o in outs}]
            raise Fail("writing out the defaults changes the findings: %s" % x[:2], "defaults")
        for k in cfg:
            ctx.label("setting " + k)

    def refuse(self, s, ctx, pr, files, cfg):
        k = s.below(12)
        src = ["-s"] if pr.source else []
        extra = s.pick([[], [], ["-S"], ["-l", "F"], ["-l", "C", "-F"], ["-E", "-e", "C-004"], ["--summary-only"]])
        if k == 0:
            p = s.pick(["nosuch.conf", "pol", ".", "nosuch/selint.conf", "@CWD@", "selint.conf/x", ""])
            files["selint.conf"] = "severity = style\n"
            r = ctx.run(files, src + ["-c", p] + extra + ["-r", "pol"])
            what = "unreadable configuration file %r" % p
            want = 64
        else:
            what, text = invalid(s, cfg)
            if s.chance(20):
                files["sysconf/selint.conf"] = text
                a = []
            else:
                files["selint.conf"] = text
                a = ["-c", "selint.conf"]
            r = ctx.run(files, src + a + extra + ["-r", "pol"])
            want = 78
        if r.rc != want:
            raise Fail("exit status %s instead of %d for %s" % (r.rc, want, what), "refused")
        if parse(r) or parse_summary(r) is not None:
            raise Fail("files are checked under an unusable configuration (%s)" % what, "refused-checked")
        if not (r.out + r.err).strip():
            raise Fail("no message for %s" % what, "refused-silent")
        ctx.label("refused: " + what.split(" ")[0])
        ctx.nontrivial = ("refuse", what, tuple(extra))
        ctx.sample = ["refused with exit status %d: %s" % (want, what)]


SUPP = ("access_vectors", "modules.conf", "obj_perm_sets.spt")
BADTEXT = {"access_vectors": ["class {\n", "class file {\n read\n", "common\n", "class file inherits\n{\n}\n}\n", "garbage ( \n", "class file\n{\n\tread\n}\nclass dir {{\n"],
           "modules.conf": ["alpha\n", "foo = base\nbar\n", "a = b = c\n", "=\n"],
           "obj_perm_sets.spt": ["define(`a_file_perms',`{ read ')\n", "define(`x_perms'\n", "define(\n", "nonsense {\n",
                                 "define(`read_file_perms',`{ read }')\ndefine(`b_file_perms' `{ read }'\n"]}
DEPEND = {"access_vectors": {"E-007", "E-008"}, "modules.conf": {"W-005", "W-010"},
          "obj_perm_sets.spt": {"S-009", "S-010", "E-007"}}


class C21(Property):
    id = "C21"
    cases = {"quick": 22000, "thorough": 300000}
    rule = ("a case places random versions of access_vectors, modules.conf, obj_perm_sets.spt, the kernel class directory, development "
            "headers and context modules (present, absent, malformed, decoys out of reach, several versions) around a generated "
            "project, runs one of the modes and compares findings and announcements with the reference model given the sources that "
            "count; non-trivial if the symbols of the counting sources change the expected findings")
    assumptions = ["the reference model lib/model.py", "the system's paths are redirected into the case's folder by the fork server"]

    def case(self, s, ctx):
        prof = dict(nmods=(2, 5), fc=20, ifs=(0, 3), tmpls=(0, 1), te_body=95, rand_av=10, rand_spt=s.pick([0, 1]),
                    kinds=kinds(av=24, call=12, tt=4), nstmts=(1, 8), config=0, av=100, spt=100, modconf=100, maxdepth=2)
        g = gen.Gen(s, gen.Prof(**prof))
        pr = g.project()
        src = pr.source = s.chance(70)
        files = render(pr, s, sup=False)
        modnames = [a for a, _ in pr.modconf] + ["filesystem", "kernel"]
        versions = {"access_vectors": lambda: g.gen_av(), "obj_perm_sets.spt": lambda: g.gen_spt(),
                    "modules.conf": lambda: [(m, s.pick(["base", "module", "off"])) for m in s.subset(sorted(set(modnames)), 70)]}
        text = {"access_vectors": access_vectors, "obj_perm_sets.spt": obj_perm_sets, "modules.conf": modules_conf}
        # modules given as context only, or as development headers
        a = []
        part = set()
        move = {}
        context = s.chance(50)
        if context or not src:
            paths = sorted(pf.path for pf in pr.files)
            mods = sorted({pf.mod for pf in pr.files})
            cm = set(s.subset(mods, 40))
            for pf in pr.files:
                if pf.mod in cm and pf.kind != "fc":
                    if context:
                        move[pf.path] = pf.path.replace("pol/", "ctx/", 1)
                    elif pf.kind == "if":
                        move[pf.path] = pf.path.replace("pol/", "root/usr/share/selinux/devel/include/", 1)
                    else:
                        move[pf.path] = None
                elif pf.mod in cm:
                    move[pf.path] = None
        keep = []
        eff = copy.copy(pr)
        eff.context = set()
        eff.files = []
        copied = False
        for pf in pr.files:
            if pf.path not in move:
                eff.files.append(pf)
                if not context and not src and pf.kind == "if" and s.chance(15):
                    files[pf.path.replace("pol/", "root/usr/share/selinux/devel/include/", 1)] = files[pf.path]   # installed, too
                    copied = True
                continue
            t = files.pop(pf.path)
            if move[pf.path] is not None:
                files[move[pf.path]] = t
                eff.files.append(pf)
                eff.context.add(pf.path)
        if src and s.chance(30):
            # headers which do not count in source mode
            files["root/usr/share/selinux/devel/include/x/zhdr.if"] = "interface(`%s',`\n\tgen_require(`\n\t\ttype a_t;\n\t')\n')\n" % \
                s.pick(["alpha_nosuch", "foo_read", "kernel_none", "ssh_read"])
        if not src and s.chance(20):
            # directories named like headers, other files among the headers
            b = "root/usr/share/selinux/devel/" + s.pick(["", "include/", "include/x/"])
            if s.chance(60):
                files[b + s.pick(["d.if", "kernel.if", "include.if"])] = ("dir",)
            else:
                files[b + "q.if/" + s.pick(["x.te", "notes", "policy.dtd", "a.iff"])] = "junk (\n"
            if s.chance(40):
                files[b + s.pick(["Makefile", "rolemap", "x.if.orig", "if", "gif", "y.te", "y.fc", "z.spt"])] = "junk {{\n"
        if context:
            a.append(["--context", "ctx"])
            files.setdefault("ctx", ("dir",))
            if any(k.startswith("ctx/") for k in files):
                files.pop("ctx")
        real_src = src or context
        eff.source = real_src
        ignored = set()
        said = {}
        used = {"access_vectors": None, "modules.conf": None, "obj_perm_sets.spt": None}
        for nm in SUPP:
            k = s.wpick([(8, "pol"), (4 if context else 0, "ctx"), (3 if context else 0, "both"), (3, "absent"), (3, "decoy"), (2, "bad")])
            v = versions[nm]()
            w = text[nm](v, s)
            sub = s.pick(["", "flask/", "support/", "policy/x/"])
            if k in ("pol", "both", "bad"):
                if k == "bad":
                    w = s.pick(BADTEXT[nm])
                files["pol/" + sub + nm] = w
                used[nm] = v
                if k == "both":
                    files["ctx/" + sub + nm] = text[nm](versions[nm](), s)
            elif k == "ctx":
                files["ctx/" + sub + nm] = w
                used[nm] = v
            elif k == "decoy":
                p = s.pick(["other/%s", "%s", "pol/.hid/%s", "pol/my_%s", "pol/%s.orig", "pol/%s/notes", "root/usr/share/selinux/devel/%s"]) % nm
                files[p] = w
                k = "absent"
            if k == "bad":
                ignored |= DEPEND[nm]
                used[nm] = None
            said[nm] = k if k in ("absent", "bad") else "ok"
            ctx.label("%s %s" % (nm, k))
        if not real_src:
            used = {k: None for k in used}
            ignored = set()
        # the running kernel
        kern = None
        if s.chance(50 if real_src else 75):
            kern = g.gen_av()
            for c, ps in kern:
                d = "root/sys/fs/selinux/class/%s/" % c
                files[d + "index"] = "1\n"
                if s.chance(92) or c == kern[0][0]:
                    for p in ps:
                        files[d + "perms/" + p] = "1\n"
                else:
                    files[d + "perms"] = ("dir",)
                    ps[:] = []
        eff.kernel = kern if not real_src else None
        eff.av = used["access_vectors"]
        eff.spt = used["obj_perm_sets.spt"]
        eff.modconf = used["modules.conf"]
        eff.config = None
        if not any(p.startswith("pol/") for p in files):
            files["pol"] = ("dir",)
        opts = ([["-s"]] if src else []) + a + [["-r"]]
        args = [x for o in s.shuffle(opts) for x in o] + ["pol"]
        r = ctx.run(files, args, root="root")
        if r.rc != 0:
            raise Fail("exit status %s\n%s" % (r.rc, (r.out + r.err)[-500:].decode("utf-8", "replace")), "status")
        outs = parse(r)
        for o in fatal(outs):
            if not (o.file in SUPP and real_src and said.get(o.file) == "bad"):
                raise Fail("fatal finding: %s" % o.raw, "fatal")
        t = (r.out + r.err).decode("utf-8", "replace")
        lines = [l for l in t.split("\n") if not FIND.match(l)]

        def told(*words):
            return any(all(w in l for w in words) for l in lines)
        for nm in SUPP:
            missing = told("ailed to locate", nm)
            broken = any("Warning" in l and "ailed to" in l and nm in l and "locate" not in l for l in lines)
            want = (real_src and said[nm] == "absent", real_src and said[nm] == "bad")
            if (missing, broken) != want:
                raise Fail("%s is %s, but %s" % (nm, said[nm] if real_src else "of no use in normal mode",
                                                 "announced as missing" if missing else "announced as broken" if broken else "not announced"), "announce-src")
        nokern = told("ailed to load classes and perms")
        if nokern != (not real_src and kern is None):
            raise Fail("kernel classes %s, %s" % ("present" if kern else "absent", "announced as missing" if nokern else "not announced"), "announce-kernel")
        try:
            m = model.Model(eff)
        except model.Ambiguous:
            ctx.label("skipped: one name declared by two modules")
            return
        if not (real_src and said["access_vectors"] == "bad"):
            for cid, need in (("E-007", bool(m.macros and m.av)), ("E-008", bool(m.av))):
                if cid == "E-007" and real_src and said["obj_perm_sets.spt"] == "bad":
                    continue
                if told(cid + " is not performed") == need:
                    raise Fail("%s is %s although the definitions it needs are %s" % (
                        cid, "announced as skipped" if not need is False else "not announced as skipped", "there" if need else "missing"), "announce-" + cid)
        if not real_src and any(f.startswith("root/usr/share/selinux/devel/include/") and f.endswith(".if") for f in files) and s.chance(40):
            # headers count for the order of statements like context files of the same layer do
            self.order_like_context(ctx, files, outs)
        ids = MODEL_IDS - ignored
        if m.loops:
            ids -= set(("W-001", "S-001", "W-002", "W-007", "W-011", "E-003", "E-004", "E-005", "E-006", "S-002"))
        want = m.findings(ids)
        compare(want, [o for o in outs if o.id in ids])
        bare = copy.copy(eff)
        bare.av = bare.spt = bare.modconf = bare.kernel = None
        bare.files = [f for f in eff.files if f.path not in eff.context]
        bare.context = set()
        try:
            other = model.Model(bare).findings(ids)
        except model.Ambiguous:
            other = []
        if sorted(map(repr, other)) != sorted(map(repr, want)):
            ctx.nontrivial = (tuple(args), tuple(sorted(said.items())), tuple(sorted(map(repr, want))))
            ctx.sample = ["selint %s; %s; kernel classes %s; %d context files" % (" ".join(args), said, "present" if kern else "absent", len(eff.context)),
                          "%d findings, %d without these sources" % (len(want), len(other)),
                          "tree: " + " ".join(sorted(k for k in files if not k.startswith("root/sys")))[:400]]
        ctx.label("source mode" if src else "context" if context else "normal mode")

    def order_like_context(self, ctx, files, outs):
        h = "root/usr/share/selinux/devel/include/"
        two = {}
        for p, t in files.items():
            if p.startswith(h):
                if p.endswith(".if") and isinstance(t, (bytes, str)):
                    two["ctx/" + p[len(h):]] = t
            elif p.startswith("pol/") and p.split("/")[-1] not in SUPP:
                two[p] = t
        r = ctx.run(two, ["--context", "ctx", "-r", "-E", "-e", "C-001", "pol"], root="root")
        if r.rc != 0:
            raise Fail("exit status %s with the headers as context\n%s" % (r.rc, (r.out + r.err)[-300:].decode("utf-8", "replace")), "status-ctx")
        a = sorted((o.file, o.line, o.msg) for o in outs if o.id == "C-001")
        c = sorted((o.file, o.line, o.msg) for o in parse(r) if o.id == "C-001")
        if a:
            ctx.label("order compared with context")
        if a != c:
            x = [y for y in a if y not in c][:2]
            z = [y for y in c if y not in a][:2]
            raise Fail("with the development headers only: %s; with the same files as context only: %s" % (x, z), "order-context")


PROPERTIES = [C20(), C21()]
