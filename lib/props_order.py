"""C19: the ordering check, against a relational model of the three conventions.

`Order` states the convention as a relation between two statements of a file
("b may not come before a").  A file whose statements all have a determined
place (the relation is a weak order) has an exact expected number of misplaced
lines: its size minus the longest correctly ordered subsequence.
"""
import re

import gen
import model
from engine import Fail, Property
from pol import Layout, N, PFile
from proj import argv, fatal, layout, parse, render
from props_model import excerpt, kinds

NON = "_non_ordered"
DECL = "_declaration"
VISIBLE = {"DECL", "AV", "XAV", "CALL", "TT"}
CHAIN = {
    "refpolicy": ["self", "own", "kernel_mod", "kernel", "system", "other", "build", "boolean", "tunable", "optional"],
    "refpolicy-light": ["self", "own", "related", "kernel_mod", "other", "build", "boolean", "tunable", "optional"],
    "refpolicy-lax": ["self", "own"],
}
TYPEWORD = {"self": "self rule", "own": "own module rule", "related": "related module interface",
            "kernel_mod": "kernel module interface", "kernel": "kernel layer interface",
            "system": "system layer interface", "other": "general interface", "build": "build option",
            "boolean": "boolean policy block", "tunable": "tunable policy block",
            "optional": "optional policy block", "unknown": "unknown subsection"}
MSG = re.compile(r"^Line out of order\.  It is of type (.*?) (before|after) line (\d+) (that .*?)\.(?:  \((.*)\))?$")


class Item:
    """one statement as the convention sees it"""
    __slots__ = ("x", "line", "sect", "base", "lss", "vis", "mod", "first", "fl", "lead")

    def __init__(self, x, line):
        self.x = x
        self.line = line


def base(name):
    return name[:-2] if len(name) >= 3 and name[-2:] in ("_t", "_r") else name


class Order:
    def __init__(self, m, f, conv):
        self.m = m
        self.f = f
        self.conv = conv
        self.rank = {n: i for i, n in enumerate(CHAIN[conv])}
        self.marks()
        self.items = []
        self.sums = {}
        self.by = {}
        self.collect(m.trees[f.path])

    # ---- which interfaces are special
    def marks(self):
        m = self.m
        self.filetrans, self.transform, self.role = set(), set(), set()
        ifs = []
        for p in m.pr.files:
            if p.kind == "if":
                for x in m.trees[p.path].ch:
                    if x.k == "IF":
                        ifs.append((p, x))
        for p, x in ifs:
            n = x.a["name"]
            for c in x.ch:
                if c.k == "TT" and "process" not in c.a["cls"]:
                    self.filetrans.add(n)
                if c.k == "CALL" and (c.a["name"] in ("filetrans_pattern", "filetrans_add_pattern")
                                      or c.a["name"].endswith("_filetrans")):
                    self.filetrans.add(n)
                if c.k == "AV" and "associate" in c.a["perms"]:
                    self.transform.add(n)
                if c.k in ("TATTR", "RATTR") and (self.transform_name(n) or p.mod in ("mls", "mcs")):
                    self.transform.add(n)
                if c.k == "RTYPES" and any(t.startswith("$") for t in c.a["types"]):
                    self.role.add(n)
        more = True
        while more:
            more = False
            for p, x in ifs:
                if x.a["name"] in self.transform:
                    continue
                body = [c for c in x.ch]
                while body and body[0].k in ("REQ", "GENREQ"):
                    body.pop(0)
                if body and body[0].k == "CALL" and body[0].a["name"] in self.transform:
                    self.transform.add(x.a["name"])
                    more = True

    @staticmethod
    def transform_name(n):
        for e in ("_type", "_file", "_domain", "_node", "_agent", "_delivery", "_sender", "_boolean", "_content",
                  "_constrained", "_executable", "_exemption", "_object", "_mountpoint"):
            if n.endswith(e):
                return True
        return False

    # ---- the statements of the file
    def collect(self, root):
        def visit(x):
            for c in x.ch:
                skip = "C-001" in ",".join(c.exc)
                it = None
                if not skip:
                    it = Item(c, c.line)
                    it.sect = self.section(c)
                    it.vis = c.k in VISIBLE
                    it.lss = self.subsection(c)
                    it.mod = self.m.ifs.get(c.a["name"]) if c.k == "CALL" else None
                    it.first = c.prev is None and c.par.k != "ROOT"
                    it.base = base(it.sect)
                    it.fl = c.a["fl"] if c.k == "DECL" else None
                    self.items.append(it)
                    self.by[id(c)] = it
                    self.add(it.sect, c.line)
                if c.k in ("OPT", "OPTELSE", "TUN", "IFDEF", "IFELSE", "BOOL", "REQ", "GENREQ", "M4ARG"):
                    # the start of a block belongs to the section of the first statement in it
                    self.add(self.section(c.ch[0]) if c.ch else NON, c.line)
                if c.k in ("DECL", "TALIAS") and c.a["aliases"]:
                    for _ in c.a["aliases"]:
                        a = Item(X_ALIAS, c.line)
                        a.sect = DECL
                        a.base, a.vis, a.lss, a.mod, a.first, a.fl = DECL, False, "unknown", None, False, None
                        self.items.append(a)
                        self.add(DECL, c.line)
                visit(c)
        visit(root)
        for it in self.items:
            it.lead = None
            if it.x.k in ("OPT", "OPTELSE", "BOOL") and it.x.ch:
                it.lead = self.by.get(id(it.x.ch[0]))
                if it.lead is None:
                    it.lead = self.detached(it.x.ch[0])

    def detached(self, c):
        it = Item(c, c.line)
        it.sect = self.section(c)
        it.base = base(it.sect)
        it.lss = self.subsection(c)
        it.mod = self.m.ifs.get(c.a["name"]) if c.k == "CALL" else None
        it.first = True
        it.fl = c.a["fl"] if c.k == "DECL" else None
        it.vis = False
        it.lead = self.detached(c.ch[0]) if c.k in ("OPT", "OPTELSE", "BOOL") and c.ch else None
        return it

    def add(self, s, line):
        a = self.sums.setdefault(s, [0, 0])
        a[0] += line
        a[1] += 1

    def block(self, x):
        """the kind of the outermost block x is in (or is)"""
        r = None
        while x is not None:
            if x.k in ("OPT", "OPTELSE"):
                r = "optional"
            elif x.k == "BOOL":
                r = "boolean"
            elif x.k == "TUN":
                r = "tunable"
            elif x.k in ("IFDEF", "IFELSE"):
                r = "build"
            x = x.par
        return r

    def section(self, x):
        k, a = x.k, x.a
        if k in ("AV", "XAV"):
            if a["fl"] in ("neverallow", "auditallow") or "associate" in a["perms"] or "mounton" in a["perms"]:
                return NON
            return a["src"][0]
        if k == "TT":
            return a["src"][0]
        if k in ("DECL", "TALIAS", "TATTR", "RATTR"):
            return NON if self.m.up(x, model.REQ) else DECL
        if k in ("OPT", "OPTELSE", "BOOL"):
            return self.section(x.ch[0]) if x.ch else NON
        if k == "CALL":
            n = a["name"]
            if n in self.filetrans:
                return NON
            if self.block(x) is None and (n in self.m.tmpl or n in self.transform or n in self.role):
                return DECL
            return a["flat"][0][0] if a["flat"] else NON
        return NON

    def subsection(self, x):
        b = self.block(x)
        if b:
            return b
        if x.k in ("AV", "XAV") and x.a["tgt"][0] == "self":
            return "self"
        m = self.m
        mod = m.ifs.get(x.a["name"]) if x.k == "CALL" else None
        if x.k in ("AV", "XAV") or (x.k == "CALL" and mod is None):
            for n in model.names(x):
                o = m.owner("type", n) or m.owner("attribute", n)
                if o and o != self.f.mod:
                    break
            else:
                return "own"
        if x.k != "CALL":
            return "unknown"
        if mod is None:
            return "other"
        if mod == self.f.mod:
            return "own"
        if self.conv != "refpolicy" and mod.split("_")[0] == self.f.mod.split("_")[0]:
            return "related"
        if mod == "kernel":
            return "kernel_mod"
        if self.conv != "refpolicy-light":
            lay = self.layer(mod)
            if lay in ("kernel", "system"):
                return lay
        return "other"

    def layer(self, mod):
        for f in self.m.pr.files:
            if f.kind == "if" and f.mod == mod:
                return f.path.split("/")[-2]
        return None

    # ---- the convention
    def misplaced(self, a, b):
        """a comes before b in the file; does that contradict the convention?  -> reason or None"""
        if a.sect == NON or b.sect == NON:
            return None
        if a.base != b.base:
            if a.sect == DECL:
                return None
            if b.sect == DECL:
                return "section"
            sa, sb = self.sums[a.sect], self.sums[b.sect]
            if sa[0] * sb[1] > sb[0] * sa[1] and not a.sect.encode() < b.sect.encode():
                return "section"
            return None
        if a.sect == DECL:
            if a.fl and b.fl and a.fl != b.fl:
                for fl in ("bool", "attribute"):
                    if a.fl == fl:
                        return None
                    if b.fl == fl:
                        return "declaration"
            return None
        if "unknown" in (a.lss, b.lss):
            return None
        if a.lss != b.lss:
            for n in CHAIN[self.conv]:
                if a.lss == n:
                    return None
                if b.lss == n:
                    return "subsection"
        if self.conv == "refpolicy-lax":
            return None
        ca, cb = a.x.k == "CALL", b.x.k == "CALL"
        if ca and cb and a.lss not in ("build", "boolean", "tunable"):
            if a.lss != "optional" or (a.lss == b.lss and a.first and b.first):
                if a.mod and b.mod and a.mod != b.mod:
                    return "alphabetical" if a.mod.encode() > b.mod.encode() else None
        if a.lss == b.lss == "optional" and a.lead is not None and b.lead is not None:
            return self.misplaced(a.lead, b.lead)
        return None

    def analyse(self):
        """-> (matrix of conflicts, ranks or None)"""
        its = [i for i in self.items if i.sect != NON]
        n = len(its)
        # after[i]: bit j set if item i must come after item j
        bad = [[None] * n for _ in range(n)]
        after = [0] * n
        for i in range(n):
            for j in range(n):
                if i != j:
                    r = self.misplaced(its[i], its[j])
                    bad[i][j] = r
                    if r:
                        after[i] |= 1 << j
        cnt = [bin(x).count("1") for x in after]
        weak = all(bool(bad[i][j]) == (cnt[j] < cnt[i]) for i in range(n) for j in range(n) if i != j)
        return its, bad, (cnt if weak else None)


class _A:
    k = "ALIAS"
    a = {}
    ch = ()


X_ALIAS = _A()


def lnds(seq, must=None, may=None):
    """longest non-decreasing subsequence of seq; with must/may: of those containing all `must` and only `may`"""
    best = []
    for i, v in enumerate(seq):
        w = 1
        if may is not None:
            if not may[i]:
                best.append(None)
                continue
            if must[i]:
                w = 100000
        b = 0
        for j in range(i):
            if best[j] is not None and seq[j] <= v and best[j] > b:
                b = best[j]
        best.append(b + w)
    return max([x for x in best if x is not None], default=0)


# ---------------------------------------------------------------- generation

OTHERS = [("kernel", "kernel"), ("files", "kernel"), ("devices", "kernel"), ("corecommands", "kernel"),
          ("init", "system"), ("libraries", "system"), ("logging", "system"), ("udev", "system"),
          ("alsa", "services"), ("dbus", "services"), ("ntp", "services"), ("zebra", "services"), ("Xorg", "services"),
          ("foo_utils", "apps"), ("foo_helper", "system"), ("mls", "kernel"), ("mcs", "kernel"), ("foobar", "apps"), ("staff", "roles"),
          ("userdom", "kernelx"), ("ssh", "sys"), ("lvm", "systems"), ("mount", "kern"), ("kernels", "services"),
          ("kern", "admin")]


class Doc:
    """builds a project whose main te file follows the documented order"""

    def __init__(self, s, conv, clean=False):
        self.s = s
        self.conv = conv
        self.n = 0
        self.clean = clean          # only statements with a determined place
        self.big = s.chance(1)

    def project(self):
        s = self.s
        pr = gen.Project()
        pr.modconf = None
        pr.config = {"ordering_rules": self.conv}
        self.own = own = s.pick(["foo", "foo_daemon", "aaa", "zzz"])
        self.layer = s.pick(["apps", "system", "kernel", "systemx"])
        others = s.sample([o for o in OTHERS if o[0] != own], s.rng_int(2, 8))
        self.ifs = {}
        self.foreign = []
        self.special = {"transform": [], "filetrans": [], "role": [], "template": []}
        for mod, lay in others + [(own, self.layer)]:
            nodes = []
            for k in range(s.rng_int(1, 2)):
                n = "%s_do%d" % (mod, k)
                self.ifs.setdefault(mod, []).append((n, lay))
                nodes += self.interface(n, [N("av", fl="allow", src=["$1"], tgt=["%s_t" % mod], cls=["file"],
                                              perms=["read"], br=(False,) * 4)], mod)
            if s.chance(12):
                # an interface which only requires something
                n = "%s_nothing" % mod
                self.ifs[mod].append((n, lay))
                b = self.interface(n, [], mod)
                nodes = b + nodes if s.chance(50) else nodes + b
            if mod in ("mls", "mcs") and s.chance(60):
                nodes += self.special_if("%s_file_read" % mod, "attr", mod)
            elif s.chance(30):
                n, k = s.pick([("%s_domain_type" % mod, "attr"), ("%s_tmpfs" % mod, "associate"),
                               ("%s_ft" % mod, "filetrans"), ("%s_ft2" % mod, "filetrans2"), ("%s_role" % mod, "role"),
                               ("%s_template" % mod, "template"), ("%s_via" % mod, "via")])
                if s.chance(15):
                    n = n[:len(mod)] + "_quite_a_long_name_for_an_interface" * s.rng_int(1, 4) + n[len(mod):]
                nodes += self.special_if(n, k, mod)
            if s.chance(25):
                # almost special, but an interface like any other
                n = s.pick(["%s_near", "%s_near_filetrans", "%s_filetrans_near", "%s_domain_types"]) % mod
                one = lambda x: {"items": [x], "form": "plain"}
                b = s.pick([lambda: N("call", name=s.pick(["x_filetrans_b", "filetrans", "a_filetrans_pattern", "files_filetranse", "filetrans_patterns",
                                                           "my_filetrans_add_pattern", "filetrans_x"]),
                                      args=[one("$1"), one("%s_t" % mod), one("file")]),
                            lambda: N("tt", fl="type_transition", src=["$1"], tgt=["%s_t" % mod], cls=["process"], dflt="$2", fname=None, br=(False,) * 3),
                            lambda: N("av", fl="allow", src=["$1"], tgt=["%s_t" % mod], cls=["filesystem"],
                                      perms=s.sample(["associated", "getattr", "mount", "relabelto"], 2), br=(False, False, False, True)),
                            lambda: N("rtypes", role="%s_r" % mod, types=["%s_t" % mod], br=False)])()
                self.ifs.setdefault(mod, []).append((n, lay))
                nodes += self.interface(n, [b], mod)
            if nodes:
                pr.files.append(PFile(mod, "if", nodes, "pol/%s/%s.if" % (lay, mod)))
            if mod != own:
                self.foreign.append("%s_t" % mod)
                pr.files.append(PFile(mod, "te", [N("header", name=mod, macro=True, ver="1.0"),
                                                  N("decl", fl="type", name="%s_t" % mod)],
                                      "pol/%s/%s.te" % (lay, mod)))
        self.te(pr)
        return pr

    def interface(self, n, body, mod, k="interface"):
        return [N("comment", text="## <summary>x</summary>"),
                N(k, [N("genreq", [N("reqdecl", fl="type", names=["%s_t" % mod])], q=True)] + body, name=n)]

    def special_if(self, n, k, mod):
        av = lambda p: N("av", fl="allow", src=["$1"], tgt=["%s_t" % mod], cls=["filesystem"], perms=[p], br=(False,) * 4)
        def assoc():
            a = av("associate")
            if self.s.chance(40):
                a.a["perms"] = self.s.shuffle(["associate"] + self.s.sample(["getattr", "mount", "unmount", "quotaget"], self.s.rng_int(1, 2)))
                a.a["br"] = (False, False, False, True)
            return a

        if k == "attr":
            self.special["transform"].append(n)
            return self.interface(n, [N("typeattr", name="$1", attrs=["%s_domain" % mod])], mod)
        if k == "associate":
            self.special["transform"].append(n)
            return self.interface(n, [assoc()], mod)
        if k == "via":
            self.special["transform"].append(n)
            c = N("call", name=n + "_inner", args=[{"items": ["$1"], "form": "plain"}])
            a = self.interface(n, [c], mod)
            b = self.interface(n + "_inner", [assoc()], mod)
            return a + b if self.s.chance(50) else b + a
        if k == "filetrans":
            self.special["filetrans"].append(n)
            return self.interface(n, [N("tt", fl="type_transition", src=["$1"], tgt=["%s_t" % mod], cls=["file"],
                                        dflt="$2", fname=None, br=(False,) * 3)], mod)
        if k == "filetrans2":
            self.special["filetrans"].append(n)
            return self.interface(n, [N("call", name=self.s.pick(["filetrans_pattern", "filetrans_add_pattern", "files_filetrans", "corecmd_bin_filetrans",
                                                           "a_filetrans_b_filetrans", "x__filetrans"]),
                                        args=[{"items": [x], "form": "plain"} for x in ("$1", "%s_t" % mod, "$2", "file")])], mod)
        if k == "role":
            self.special["role"].append(n)
            return self.interface(n, [N("rtypes", role="%s_r" % mod, types=["$1"], br=False)], mod)
        self.special["template"].append(n)
        return self.interface(n, [N("decl", fl="type", name="$1_x_t")], mod, "template")

    # ---- statements with their place
    def av(self, src, tgt, perm="read"):
        self.n += 1
        if self.s.chance(12):
            return N("xav", fl="allow", src=src, tgt=tgt, cls=["file"], op="ioctl", perms=["0x%x" % (self.n + 16)],
                     br=(len(src) > 1, len(tgt) > 1, False, False))
        return N("av", fl=self.s.pick(["allow", "allow", "dontaudit"]), src=src, tgt=tgt, cls=["file"],
                 perms=[perm], br=(len(src) > 1, len(tgt) > 1, False, False))

    def call(self, n, arg, *more):
        return N("call", name=n, args=[{"items": [x], "form": "plain"} for x in (arg,) + more])

    def place(self, mod, lay):
        """(rank, alphabetical key) of a call of mod's interface"""
        c = self.conv
        if mod == self.own:
            return (1, "")
        if c == "refpolicy-lax":
            return (9, "")
        if c == "refpolicy-light":
            if mod.split("_")[0] == self.own.split("_")[0]:
                return (2, mod)
            return (3, "") if mod == "kernel" else (6, mod)
        if mod == "kernel":
            return (3, "")
        return ({"kernel": 4, "system": 5}.get(lay, 6), mod)

    def section_items(self, d, mine):
        """[(key, node)] of one domain's section; key None: anywhere"""
        s = self.s
        out = []
        args = [d, d, d, base(d) + "_r", base(d)] if d.endswith("_t") else [d]
        lax = self.conv == "refpolicy-lax"
        R = lambda r: 9 if lax and r > 1 else r
        for _ in s.many(1, 12, 88) if not self.big else range(s.rng_int(20, 320)):
            k = s.wpick([(2, "self"), (3, "own"), (8, "call"), (2, "ifdef"), (2, "boolean"), (2, "tunable"),
                         (5, "optional"), (0 if self.clean else 1, "tt"), (0 if self.clean else 1, "raw"),
                         (0 if self.clean else 1, "pattern")])
            if k == "self":
                out.append(((0, ""), self.av([d], ["self"])))
            elif k == "own":
                out.append(((1, ""), self.av([d], [s.pick(mine + ["nowhere_t"])])
                            if s.chance(70) else self.call("manage_pattern", d, s.pick(mine))))
            elif k == "call":
                mod = s.pick(sorted(self.ifs))
                n, lay = s.pick(self.ifs[mod])
                out.append((self.place(mod, lay), self.call(n, s.pick(args))))
            elif k == "pattern":
                out.append(((R(6), None), self.call("can_exec", d, s.pick(self.foreign))))
            elif k == "tt":
                out.append((None, N("tt", fl="type_transition", src=[d], tgt=[s.pick(mine)], cls=["process"],
                                    dflt=s.pick(mine), fname=None, br=(False,) * 3)))
            elif k == "raw":
                out.append((None, self.av([d], [s.pick(self.foreign)])))
            elif k == "optional":
                inner = [self.inner(d, mine, args) for _ in s.many(1, 1 if self.clean else 3, 60)]
                first = inner[0]
                if self.clean and first.k != "call":
                    continue
                al = None
                if first.k == "call":
                    al = [m for m, l in self.ifs.items() if any(n == first.name for n, _ in l)][:1]
                    al = al[0] if al else None
                out.append(((R(10), "" if lax else al), N("optional", inner)))
            else:
                inner = [self.inner(d, mine, args) for _ in s.many(1, 3, 60)]
                if k == "ifdef":
                    n = N("ifdef", [N("m4arg", inner)], cond="init_systemd", kw="ifdef")
                    if s.chance(30):
                        n.ch.append(N("m4arg", [self.inner(d, mine, args)]))
                elif k == "tunable":
                    n = N("tunable", [N("m4arg", inner)], cond=["foo_bool"], q=True)
                else:
                    n = N("boolean", inner, cond=["foo_bool"], nthen=len(inner), els=False)
                out.append(((R({"ifdef": 7, "boolean": 8, "tunable": 9}[k]), ""), n))
        return out

    def inner(self, d, mine, args):
        s = self.s
        if s.chance(65):
            mod = s.pick(sorted(self.ifs))
            return self.call(s.pick(self.ifs[mod])[0], s.pick(args))
        return self.av([d], [s.pick(mine + ["self"] + self.foreign)])

    def arrange(self, items):
        """the items in an order which follows the convention"""
        s = self.s
        fixed = [i for i in items if i[0] is not None]
        # those without an alphabetical place go anywhere within their subsection
        fixed = s.shuffle(fixed)
        out = []
        for r in sorted({k[0] for k, _ in fixed}):
            grp = [i for i in fixed if i[0][0] == r]
            placed = sorted([i for i in grp if i[0][1] is not None], key=lambda i: i[0][1].encode())
            for i in grp:
                if i[0][1] is None:
                    placed.insert(s.below(len(placed) + 1), i)
            out += placed
        for i in items:
            if i[0] is None:
                out.insert(s.below(len(out) + 1), i)
        return [n for _, n in out]

    def te(self, pr):
        s = self.s
        own = self.own
        doms = s.sample(["%s_t" % own, "%s_exec_t" % own, "%s_log_t" % own, "b_t", "%s_domain" % own, "m_t"], s.rng_int(1, 4))
        types = [d for d in doms if d.endswith("_t")]
        attrs = [d for d in doms if not d.endswith("_t")]
        extra = ["%s_x%d_t" % (own, i) for i in range(s.below(3))]
        bools = ["%s_b%d" % (own, i) for i in range(s.below(3))]
        decl = [N("decl", fl="bool", name=b, syn=s.pick(["", "gen_bool", "gen_tunable"])) for b in s.shuffle(bools)]
        decl += [N("decl", fl="attribute", name=a) for a in s.shuffle(attrs + ["%s_at%d" % (own, i) for i in range(s.below(3))])]
        rest = [N("decl", fl="type", name=t, aliases=(["%s_al%d_t" % (own, i)] if not self.clean and s.chance(15) else [])) for i, t in enumerate(types + extra)]
        rest += [N("decl", fl="role", name="%s_q%d_r" % (own, i)) for i in range(s.below(2))]
        rest += [N("decl", fl="attribute_role", name="%s_ar%d" % (own, i)) for i in range(s.below(2))]
        decl += s.shuffle(rest)
        for _ in s.many(0, 0 if self.clean else 4, 45):
            k = s.below(3)
            if k == 0 and types:
                x = N("typeattr", name=s.pick(types), attrs=["%s_domain" % own])
            elif k == 1 and types:
                x = N("typealias", type=s.pick(types), aliases=["%s_ta%d_t" % (own, self.n)], br=False)
                self.n += 1
            else:
                c = self.special["transform"] + self.special["role"] + self.special["template"]
                if not c:
                    continue
                x = self.call(s.pick(c), s.pick(doms))
            decl.insert(s.below(len(decl) + 1), x)
        mine = types + extra or ["nowhere_t"]
        self.secs = []
        for d in doms:
            self.secs.append(self.arrange(self.section_items(d, mine)))
        nodes = decl + [n for sec in self.secs for n in sec]
        for _ in s.many(0, 5, 55):
            nodes.insert(s.below(len(nodes) + 1), self.floating(doms, mine))
        pr.files.append(PFile(own, "te", [N("header", name=own, macro=True, ver="1.0")] + nodes,
                              "pol/%s/%s.te" % (self.layer, own)))

    def floating(self, doms, mine):
        s = self.s
        k = s.below(9)
        if k == 0:
            return N("rtypes", role="system_r", types=[s.pick(mine)], br=False)
        if k == 1:
            return N("ra", src=["a_r"], tgt=["b_r"], br=(False, False))
        if k == 2:
            return N("av", fl=s.pick(["neverallow", "auditallow"]), src=[s.pick(mine)], tgt=["self"], cls=["file"],
                     perms=["write"], br=(False,) * 4)
        if k == 3:
            return N("av", fl="allow", src=[s.pick(mine)], tgt=[s.pick(self.foreign)], cls=["filesystem"],
                     perms=[s.pick(["associate", "mounton"])], br=(False,) * 4)
        if k == 4:
            return N("genreq", [N("reqdecl", fl="type", names=[s.pick(self.foreign)])], q=True)
        if k == 5:
            return N("permissive", name=s.pick(mine))
        if k == 6 and self.special["filetrans"]:
            return self.call(s.pick(self.special["filetrans"]), s.pick(doms), "file")
        if k == 7:
            return N("semi")
        return N("comment", text="# a remark")


class C19(Property):
    id = "C19"
    cases = {"quick": 28000, "thorough": 380000}
    rule = ("a case is a policy project with a te file which follows the documented order, such a file with moved "
            "statements, or a random one, checked under one of the three conventions; non-trivial if the reference model "
            "expects misplaced lines, or if the file follows the documented order and has at least 8 ordered statements")
    assumptions = ["the reference relation in lib/props_order.py states the three conventions",
                   "the exact number of reported lines is only claimed for files whose statements all have a determined "
                   "place (the relation is a weak order); otherwise only that each report is justified"]

    def case(self, s, ctx):
        mode = s.wpick([(4, "documented"), (5, "moved"), (5, "random")])
        conv = s.pick(["refpolicy", "refpolicy-light", "refpolicy-lax"])
        if mode == "random":
            pr = gen.Gen(s, gen.Prof(nmods=(2, 4), fc=0, ifs=(1, 3), tmpls=s.pick([(0, 0), (0, 0), (0, 1)]), te_body=100, spt=0, av=0, config=100,
                                     modnames=gen.MODNAMES, nstmts=s.pick([(2, 8), (4, 14)]), maxdepth=s.pick([1, 2, 3]),
                                     exc=s.pick([0, 0, 12]), exc_ids=["C-001", "W-001"], exc_bool=True,
                                     kinds=kinds(av=25, call=25, tt=2, xav=3, req=2, optional=7, tunable=3, ifdef=3,
                                                 boolean=3, rt=1, ra=1))).project()
            pr.config["ordering_rules"] = conv
        else:
            pr = Doc(s, conv, mode == "moved" and s.chance(60)).project()
            if mode == "moved":
                ns = pr.files[-1].nodes
                for _ in range(1 + s.below(3)):
                    if len(ns) > 2:
                        x = ns.pop(1 + s.below(len(ns) - 1))
                        ns.insert(1 + s.below(len(ns)), x)
        lay = Layout(noise=0)
        if s.chance(25):
            lay = layout(s)
            lay.split = lay.broken = False      # the mean line of a section is no matter of the convention
        files = render(pr, s, lay)
        try:
            m = model.Model(pr)
        except model.Ambiguous:
            ctx.label("skipped: one name declared by two modules")
            return
        if m.loops:
            ctx.label("skipped: recursive templates")
            return
        ctx.label("%s file, %s" % (mode, conv))
        r = ctx.run(files, argv(pr, "-r", "-e", "C-001", "-E", "pol"))
        if r.rc != 0:
            raise Fail("exit status %s\n%s" % (r.rc, (r.out + r.err)[-600:].decode("utf-8", "replace")), "status")
        outs = parse(r)
        if fatal(outs):
            raise Fail("internal error instead of an ordering verdict: %s" % fatal(outs)[0].raw, "fatal")
        if mode == "documented":
            own = pr.files[-1]
            got = [o for o in outs if o.file == own.base]
            n = len(list(model.dfs(m.trees[own.path])))
            if n >= 8:
                ctx.nontrivial = tuple(sorted(files.items(), key=lambda kv: kv[0]))
                ctx.sample = excerpt(pr, files, [])
            if got:
                raise Fail("a file in the documented order of %s is reported: %s" % (conv, got[0].raw), "documented")
        for f in pr.files:
            if f.kind == "te":
                self.judge(pr, m, f, conv, [o for o in outs if o.file == f.base], ctx, files)

    def judge(self, pr, m, f, conv, got, ctx, files):
        o = Order(m, f, conv)
        its, bad, rank = o.analyse()
        lines = {}
        for i, it in enumerate(its):
            if it.vis:
                lines.setdefault(it.line, []).append(i)
        cnt = {}
        for g in got:
            cnt[g.line] = cnt.get(g.line, 0) + 1
        for ln, k in cnt.items():
            if k > len(lines.get(ln, ())):
                raise Fail("%s:%d is reported as misplaced (%d times), but has %d ordered statements" % (
                    f.base, ln, k, len(lines.get(ln, ()))), "where")
        exact = all(cnt.get(ln, 0) in (0, len(v)) for ln, v in lines.items())
        flagged = {i for ln, v in lines.items() if cnt.get(ln, 0) == len(v) for i in v}
        confl = any(bad[i][j] for i in range(len(its)) for j in range(i + 1, len(its)))
        if got and not confl:
            raise Fail("no two statements of %s are in the wrong order, yet: %s" % (f.base, got[0].raw), "spurious")
        for g in got:
            self.message(g, o, its, bad, lines, flagged, f)
        if confl:
            ctx.label("files with misplaced statements")
        if not exact:
            ctx.label("skipped: several statements of one line")
            return
        if rank is None:
            ctx.label("files without determined order")
            return
        ctx.label("files with determined order")
        best = lnds(rank)
        if best < len(its):
            ctx.label("exact minimum decided")
            if not ctx.nontrivial:
                ctx.nontrivial = (conv, tuple(sorted(cnt)), files[f.path])
                ctx.sample = excerpt(pr, files, ["%d of %d statements of %s misplaced" % (len(its) - best, len(its), f.base)])
        must = [it.vis and i not in flagged for i, it in enumerate(its)]
        may = [i not in flagged for i in range(len(its))]
        have = lnds(rank, must, may)
        need = sum(must)
        if have // 100000 != need:
            raise Fail("the statements of %s which are not reported are not in order (%d of them are)" % (
                f.base, have // 100000), "unordered")
        if need + have % 100000 != best:
            raise Fail("%d statements of %s are reported as misplaced, but moving %d suffices" % (
                len(its) - need - have % 100000, f.base, len(its) - best), "minimum")

    def message(self, g, o, its, bad, lines, flagged, f):
        mt = MSG.match(g.msg)
        if not mt:
            raise Fail("unexpected text: %s" % g.raw, "text")
        word, where, ln, why, more = mt.group(1), mt.group(2), int(mt.group(3)), mt.group(4), mt.group(5)
        others = [j for j, it in enumerate(its) if it.line == ln and j not in flagged]
        ok = False
        for i in lines[g.line]:
            if TYPEWORD[its[i].lss] != word:
                continue
            for j in others:
                a, b = (i, j) if where == "before" else (j, i)
                if a < b and bad[a][b]:
                    if bad[a][b] == "section" and more != (
                            "This node is in the section for %s rules and the other is in the section for %s rules." % (
                                its[i].sect, its[j].sect)):
                        continue
                    if why not in self.whys(bad[a][b], where, its[i], its[j], o):
                        continue
                    if bad[a][b] != "section" and more != self.remark(bad[a][b], its[i], its[j]):
                        continue
                    ok = True
        if not ok:
            raise Fail("not a misplacement: %s (line %d)" % (g.raw, ln), "reason")


    LSSWHY = {
        "self": "that is a self rule", "own": "that refers to types owned by this module",
        "related": "that calls an interface located in a related module",
        "kernel_mod": "that calls an interface located in the kernel module",
        "kernel": "that calls an interface located in the kernel layer",
        "system": "that calls an interface located in the system layer",
        "build": "that is controlled by a build option", "boolean": "that is in a boolean block",
        "tunable": "that is in a tunable block", "optional": "that is in an optional block",
    }

    @staticmethod
    def remark(kind, this, other):
        if kind != "subsection" or other.lss not in ("kernel", "system", "other"):
            return None
        return {"kernel": "This interface is in the kernel layer.", "system": "This interface is in the system layer.",
                "other": "This interface is in a layer other than kernel or system.",
                "kernel_mod": "This interface is in the kernel module."}.get(this.lss)

    def whys(self, kind, where, this, other, o):
        """the reasons that are true of the pair"""
        if kind == "section":
            if this.base == DECL:
                return ["that is not a declaration"]
            if other.base == DECL:
                return ["that is a transform interface" if other.x.k == "CALL" and other.x.a["name"] in o.transform
                        else "that is a declaration"]
            return ["that is in a different section"]
        if kind == "declaration":
            return ["that is associated with a different sort of declaration"]
        if kind == "subsection":
            if other.lss == "other":
                return ["that calls an interface not located in the kernel or system layer" if o.conv == "refpolicy"
                        else "that calls a non-optional interface"]
            return [self.LSSWHY[other.lss]]
        return ["that is alphabetically " + ("earlier" if where == "before" else "later")]


PROPERTIES = [C19()]
