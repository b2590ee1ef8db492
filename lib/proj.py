"""Projects on disk: rendering, command lines, reading back selint's output."""
import re
from collections import Counter

from engine import Fail
from pol import Layout, link, render_file

FIND = re.compile(r"^(.*?): *(\d+): \(([CSWEF])\): (.*) \(([CSWEF])-(\d{3})\)$")
SEV = "CSWE"


class Out:
    """one finding printed by selint"""
    __slots__ = ("file", "line", "sev", "msg", "id", "raw", "old")

    def __init__(self, m, raw):
        self.file = m.group(1)
        self.line = int(m.group(2))
        self.sev = m.group(3)
        self.msg = m.group(4)
        self.id = "%s-%s" % (m.group(5), m.group(6))
        self.raw = raw

    def key(self):
        return (self.file, self.line, self.id)

    def __repr__(self):
        return self.raw


def parse(run):
    """findings printed by a run"""
    out = []
    for l in run.out.decode("utf-8", "replace").split("\n"):
        m = FIND.match(l)
        if m:
            out.append(Out(m, l))
    return out


def parse_summary(run):
    """(list of (id, count) in print order, explicit 'none')  or None if there is no summary"""
    t = run.out.decode("utf-8", "replace")
    i = t.find("Found the following issue counts:")
    if i < 0:
        return None
    cnt = []
    none = False
    for l in t[i:].split("\n")[1:]:
        m = re.match(r"^([CSWEF]-\d{3}): (\d+)$", l)
        if m:
            cnt.append((m.group(1), int(m.group(2))))
        elif l.strip() == "(none)":
            none = True
    return cnt, none


def fatal(outs):
    return [o for o in outs if o.id.startswith("F")]


def layout(src, noise=None, crlf=None):
    if noise is None:
        noise = src.wpick([(3, 0), (4, 1), (2, 2)])
    return Layout(noise=noise, crlf=src.chance(8) if crlf is None else crlf, tabs=not src.chance(10),
                  final_nl=not src.chance(10), broken=noise > 1 and src.chance(30))


def modules_conf(mods, src=None):
    o = []
    for m, st in mods:
        if src and src.chance(20):
            o.append(src.pick(["# comment", "", "# x = base", "  # nothing here", "\t# x = base = module", " ", "#", "\t \t", "#\n# Layer: system\n#"]))
        eq = src.pick([" = ", "=", " =", "= ", "\t=\t", "   =   "]) if src else " = "
        o.append("%s%s%s%s%s" % (src.pick(["", "", "", " ", "\t"]) if src else "", m, eq, st, src.pick(["", "", "", " ", "\t", "  "]) if src else ""))
    nl = "\r\n" if src and src.chance(12) else "\n"
    return nl.join(o) + (nl if o and not (src and src.chance(10)) else "")


def access_vectors(av, src=None):
    """av: [(class, [perms])]"""
    o = ["#", "# access vectors", "#", ""]
    common = None
    odd = src.chance(35) if src else False

    def block(ps):
        if not odd or src.chance(50):
            return "{\n%s}\n" % "".join("\t%s\n" % p for p in ps)
        w = []
        for p in ps:
            w.append(p)
            w.append(src.wpick([(6, " "), (3, "\n\t"), (1, "\t# %s\n" % src.pick(["comment", "audit_access", "}", "class x { y }", ""])), (1, "\n\n"), (1, "\r\n")]))
        return "{%s%s}%s" % (src.pick([" ", "\n\t", "", " # perms\n"]), "".join(w), src.pick(["\n", "", " ", "\n\n\n"]))

    if src and src.chance(50) and {"getattr", "ioctl", "read", "write"} <= {p for _, ps in av for p in ps}:
        common = "common file%s" % (src.pick(["\n", " ", "\n\n"]) if odd else "\n") + block(["getattr", "ioctl", "read", "write"])
    if common:
        o.append(common)
    for c, ps in av:
        inh = ""
        sp = src.pick(["\n", " ", "\n\t", "\t", "\n\n"]) if odd else "\n"
        rest = list(ps)
        if common and src.chance(50) and set(("getattr", "ioctl", "read", "write")) <= set(ps):
            inh = "inherits file" + sp
            rest = [p for p in ps if p not in ("getattr", "ioctl", "read", "write")]
        if odd and src.chance(20):
            o.append(src.pick(["# class nosuch { perm }", "#", "", "\t# %s" % c]))
        if inh and not rest:
            o.append("class%s%s%s%s" % (" " if not odd else src.pick([" ", "\t", "\n"]), c, sp, inh))
        else:
            o.append("class %s%s%s%s" % (c, sp, inh, block(rest)))
    return "\n".join(o)


def obj_perm_sets(spt, src=None):
    o = ["#", "# support macros", "#"]
    odd = src.chance(35) if src else False
    have = {m for m, _ in spt}
    for m, ps in spt:
        if src and src.chance(5):
            o.append("")
        if odd and src.chance(8):
            # deprecated macros are not imported, nor are other definitions
            d = src.pick(["read_file_perms", "rw_file_perms", "a_file_perms", "b_dir_perms", "use_term_perms", "old_perms", "manage_file_perms"])
            if d not in have:
                o.append("define(`%s',`%s{ %s }%srefpolicywarn(`%s is deprecated')%s')" % (
                    d, src.pick(["", " ", "\n\t"]), " ".join(ps), src.pick([" ", "\n\t", ""]), src.pick(["$0", d]), src.pick(["", "\n", " "])))
        if odd and src.chance(5):
            o.append("define(`%s', `{ dir file_class_set }')" % src.pick(["dir_file_class_set", "read_file_perms_x", "a_perms_set", "perms"]))
        if odd and src.chance(8):
            o.append(src.pick(["#", "# define(`x_file_perms',`{ read }')", "\t# x", "", "\r"]))
        if not odd or src.chance(40):
            o.append("define(`%s',`{ %s }')" % (m, " ".join(ps)))
        else:
            l = "{%s%s%s}" % (src.pick([" ", "\n\t", ""]), src.pick([" ", " ", "\t", "\n\t\t"]).join(ps), src.pick([" ", "\n", ""]))
            if len(ps) == 1 and src.chance(50):
                l = ps[0]
            o.append("define%s(%s`%s'%s,%s`%s%s%s'%s)%s" % (
                src.pick(["", "", " "]), src.pick(["", "", " "]), m, src.pick(["", "", " "]), src.pick(["", " ", "\t\t", "\n\t"]), src.pick(["", "", "\n", " "]), l,
                src.pick(["", "", "\n", " "]), src.pick(["", "", "\n"]), src.pick(["", "", " # comment", " dnl"])))
    return "\n".join(o) + ("\n" if not odd or src.chance(80) else "")


CFGLIST = ("disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros",
           "custom_te_simple_macros", "ordering_requires")


def config(c):
    o = ["# selint configuration"]
    for k, v in c.items():
        if k in CFGLIST:
            if isinstance(v, str):
                v = [v]
            o.append("%s = { %s }" % (k, ", ".join('"%s"' % x for x in v)))
        elif k in ("ordering_rules", "severity", "ordering_requires_same_flavor", "skip_checking_generated_fcs"):
            o.append('%s = "%s"' % (k, v) if not v.startswith("@") else "%s = %s" % (k, v[1:]))
        else:
            raise AssertionError(k)
    return "\n".join(o) + "\n"


def support(pr, src=None):
    f = {}
    if pr.modconf is not None:
        f["pol/modules.conf"] = modules_conf(pr.modconf, src)
    if pr.av is not None:
        f["pol/flask/access_vectors"] = access_vectors(pr.av, src)
    if pr.spt is not None:
        f["pol/support/obj_perm_sets.spt"] = obj_perm_sets(pr.spt, src)
    if pr.config is not None:
        f["selint.conf"] = config(pr.config)
    return f


def render(pr, src, lay=None, sup=True):
    """files of the project; the layout of every file is drawn from src"""
    files = {}
    for pf in pr.files:
        link(pf.nodes)
        files[pf.path] = render_file(pf, src, lay or layout(src))
    if sup:
        files.update(support(pr, src))
    if not any(k.startswith("pol/") for k in files):
        files["pol"] = ("dir",)
    return files


def argv(pr, *extra):
    a = []
    if pr.source:
        a.append("-s")
    if pr.config is not None:
        a += ["-c", "selint.conf"]
    return a + list(extra)


# ---------------------------------------------------------------- comparing

WORD = re.compile(r"[A-Za-z0-9_$.*~-]+")


def has_word(msg, w):
    """w appears in msg not as part of a longer name"""
    return re.search(r"(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])" % re.escape(w), msg) is not None


def words_ok(msg, words):
    """message contains the expected identifiers; ("ANY", alternatives) accepts any of the alternatives,
    "^text" a message starting with the text"""
    if not words:
        return True
    if words[0] == "ANY":
        return any(s010_ok(msg, alt) for alt in words[1])
    return all(msg.startswith(w[1:]) if w[:1] == "^" else has_word(msg, w) for w in words)


def s010_ok(msg, alt):
    macro, repl, added = alt
    return has_word(msg, macro) and all(has_word(msg, p) for p in repl) and all(has_word(msg, p) for p in added)


def compare(expected, got, describe=""):
    """expected: model Findings; got: Outs.  Raises Fail on a difference."""
    e = Counter(x.key() for x in expected)
    g = Counter(x.key() for x in got)
    if e != g:
        miss = sorted((e - g).elements())
        extra = sorted((g - e).elements())
        msg = []
        for k in miss[:4]:
            w = [x for x in expected if x.key() == k][0]
            msg.append("missing finding %s:%d %s %s" % (k[0], k[1], k[2], " ".join(map(str, w.words))))
        for k in extra[:4]:
            w = [x for x in got if x.key() == k][0]
            msg.append("unexpected finding: %s" % w.raw)
        tag = "miss-%s" % miss[0][2] if miss else "extra-%s" % extra[0][2]
        raise Fail("\n".join(msg) + describe, tag)
    by, ex = {}, {}
    for x in got:
        by.setdefault(x.key(), []).append(x)
    for x in expected:
        ex.setdefault(x.key(), []).append(x)
    for k, xs in ex.items():
        os_ = by[k]
        adj = [[j for j, o in enumerate(os_) if words_ok(o.msg, x.words)] for x in xs]
        taken = {}

        def assign(i, seen):
            for j in adj[i]:
                if j not in seen:
                    seen.add(j)
                    if j not in taken or assign(taken[j], seen):
                        taken[j] = i
                        return True
            return False
        for i, x in enumerate(xs):
            if not assign(i, set()):
                raise Fail("finding %s does not name %r" % (os_[0].raw if len(os_) == 1 else [o.raw for o in os_[:3]], x.words), "words-" + x.id)
