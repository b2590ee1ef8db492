"""Reference model: predicts the findings of a generated project.

Written from the documentation of the checks (README, man page, check
descriptions) over the generator's AST; it never reads selint's sources or
parses policy text.
"""
import re

from pol import flat_args
from gen import ABBREV, ORDER_FL


class Ambiguous(Exception):
    """the project declares one name in two modules"""


FLWORD = {"type": "type", "attribute": "attribute", "attribute_role": "attribute role", "role": "role", "user": "user",
          "class": "class", "bool": "boolean"}


class X:
    __slots__ = ("k", "a", "ch", "par", "prev", "next", "line", "exc")

    def __init__(self, k, line, **a):
        self.k = k
        self.a = a
        self.ch = []
        self.par = self.prev = self.next = None
        self.line = line
        self.exc = ()

    def add(self, c):
        c.par = self
        if self.ch:
            c.prev = self.ch[-1]
            self.ch[-1].next = c
        self.ch.append(c)
        return c


def exc_ids(n):
    if not n.exc:
        return ()
    return tuple(x.strip() for x in n.exc.split(":", 1)[1].split(","))


BLOCKS = {"optional": "OPT", "optional_else": "OPTELSE", "tunable": "TUN", "ifdef": "IFDEF", "ifelse": "IFELSE",
          "boolean": "BOOL", "require": "REQ", "genreq": "GENREQ", "interface": "IF", "template": "TMPL",
          "m4arg": "M4ARG", "reqifdef": "IFDEF"}
SIMPLE = {"header": "HEADER", "av": "AV", "xav": "XAV", "tt": "TT", "rt": "RT", "ra": "RA", "rtypes": "RTYPES",
          "call": "CALL", "typeattr": "TATTR", "roleattr": "RATTR", "permissive": "PERM", "semi": "SEMI",
          "stray": "STRAY", "define": "DEFINE"}


def build(nodes, root, top):
    for n in nodes:
        k = n.k
        e = exc_ids(n)
        if k in ("raw",):
            continue
        if k == "comment":
            if top:
                root.add(X("COMMENT", n.line))
            continue
        if k == "userdebug":
            build(n.ch, root, False)
            continue
        if k == "decl":
            x = root.add(X("DECL", n.line, fl=n.fl, name=n.a["name"], attrs=n.a.get("attrs") or [],
                           aliases=n.a.get("aliases") or []))
            x.exc = e
            continue
        if k == "reqdecl":
            for nm in n.names:
                x = root.add(X("DECL", n.line, fl=n.fl, name=nm, attrs=(n.a.get("attrs") or []) if n.fl == "class" else [],
                               aliases=[]))
                x.exc = e
            continue
        if k == "typealias":
            x = root.add(X("TALIAS", n.line, name=n.a["type"], aliases=n.a["aliases"]))
            x.exc = e
            continue
        if k in BLOCKS:
            x = root.add(X(BLOCKS[k], n.line, **n.a))
            x.exc = e
            build(n.ch, x, False)
            continue
        x = root.add(X(SIMPLE[k], n.line, **n.a))
        x.exc = e
        if k == "call":
            x.a["flat"] = flat_args(n.args)


def tree(pf):
    r = X("ROOT", 0)
    build(pf.nodes, r, True)
    return r


def dfs(x):
    for c in x.ch:
        yield c
        yield from dfs(c)


def strip(n):
    return n[1:] if n.startswith("-") else n


def names(x):
    k, a = x.k, x.a
    if k in ("AV", "XAV"):
        r = a["src"] + a["tgt"]
    elif k in ("TT", "RT"):
        d = a["dflt"]
        r = a["src"] + a["tgt"] + [d.replace(" ", "")]
    elif k == "DECL":
        r = [a["name"]] + list(a["attrs"])
    elif k == "CALL":
        r = [s for s, _, _ in a["flat"]]
    elif k == "RA":
        r = a["src"] + a["tgt"]
    elif k == "RTYPES":
        r = [a["role"]] + a["types"]
    elif k in ("TATTR", "RATTR"):
        r = [a["name"]] + a["attrs"]
    elif k in ("TALIAS", "PERM"):
        r = [a["name"]]
    else:
        return []
    return [strip(n) for n in r]


NAMED = {"AV", "XAV", "TT", "RT", "DECL", "CALL", "RA", "RTYPES", "TATTR", "RATTR", "TALIAS", "PERM"}


class Finding:
    __slots__ = ("file", "line", "id", "words", "sure")

    def __init__(self, file, line, id, words):
        self.file = file
        self.line = line
        self.id = id
        self.words = words

    def key(self):
        return (self.file, self.line, self.id)

    def __repr__(self):
        return "%s:%d %s %s" % (self.file, self.line, self.id, list(self.words))


def m4sub(text, args):
    """m4 expansion of $N in text"""
    def f(m):
        i = int(m.group(1))
        return args[i - 1] if 1 <= i <= len(args) else ""
    return re.sub(r"\$([0-9]+)", f, text)


def call_args(args):
    """the m4 arguments of a call, one string each"""
    out = []
    for a in args:
        it = list(a["items"])
        f = a["form"]
        if f == "quoted":
            out.append('"%s"' % it[0])
        elif f == "brace":
            out.append(("~" if a.get("comp") else "") + "{ " + " ".join(it) + " }")
        else:
            out.append(" ".join(it))
    return out


REQ = ("REQ", "GENREQ")
IFT = ("IF", "TMPL")
DISPLAY = {"attribute_role": "attribute role", "bool": "boolean"}


class Model:
    def __init__(self, pr, checked=None):
        self.pr = pr
        self.decl = {}                  # (fl, name) -> module
        self.ifs = {}                   # name -> module
        self.tmpl = {}                  # name -> root X
        self.trees = {}
        self.calls_expanded = 0
        self.loops = 0
        cfg = pr.config
        if cfg is None:
            self.declare("user", "system_u", "__assumed__")
            self.declare("role", "object_r", "__assumed__")
        else:
            for u in cfg.get("assume_users", []):
                self.declare("user", u, "__assumed__")
            for r in cfg.get("assume_roles", []):
                self.declare("role", r, "__assumed__")
        self.cfg = cfg or {}
        self.av = pr.av if pr.source else pr.kernel
        self.macros = pr.spt if pr.source else None
        self.mods = dict(reversed(pr.modconf)) if pr.source and pr.modconf is not None else {}
        self.load()

    def declare(self, fl, name, mod):
        k = (fl, name)
        o = self.decl.setdefault(k, mod)
        if o != mod:
            if o == "__assumed__":
                return
            raise Ambiguous("%s %s: %s and %s" % (fl, name, o, mod))

    def declare_sub(self, fl, name, mod):
        if not re.match(r"[A-Za-z0-9_$\"./-]+$", name):
            raise Ambiguous("expansion is no declaration: %s" % name)
        self.declare(fl, name, mod)

    def load(self):
        fs = [f for f in self.pr.files if f.kind in ("if", "te")]
        for f in fs:
            self.trees[f.path] = tree(f)
        for f in fs:
            if f.kind != "if":
                continue
            for x in self.trees[f.path].ch:
                if x.k in IFT:
                    n = x.a["name"]
                    if self.ifs.setdefault(n, f.mod) != f.mod:
                        raise Ambiguous("interface " + n)
                    if x.k == "TMPL":
                        self.tmpl[n] = x
        for f in fs:
            for x in dfs(self.trees[f.path]):
                if self.up(x, ("TMPL",)):
                    continue
                if x.k == "DECL" and not self.up(x, REQ):
                    if not x.a["name"].startswith("$"):
                        self.declare(x.a["fl"], x.a["name"], f.mod)
                if x.k in ("DECL", "TALIAS"):
                    for al in x.a["aliases"]:
                        self.declare("type", al, f.mod)
                if x.k == "CALL":
                    self.expand(x.a["name"], call_args(x.a["args"]), f.mod, ())

    def expand(self, name, args, mod, stack):
        """declare what the template call declares; False if it recurses"""
        t = self.tmpl.get(name)
        if t is None:
            return True
        self.calls_expanded += 1
        if name in stack:
            self.loops += 1
            return False
        ok = True
        for x in dfs(t):
            if x.k == "CALL":
                if not self.expand(x.a["name"], [m4sub(a, args) for a in call_args(x.a["args"])], mod, stack + (name,)):
                    return False
        for x in dfs(t):
            if x.k == "DECL" and not self.up(x, REQ):
                self.declare_sub(x.a["fl"], m4sub(x.a["name"], args), mod)
            if x.k in ("DECL", "TALIAS"):
                for al in x.a["aliases"]:
                    self.declare_sub("type", m4sub(al, args), mod)
        return ok

    @staticmethod
    def up(x, kinds):
        p = x.par
        while p is not None:
            if p.k in kinds:
                return p
            p = p.par
        return None

    def owner(self, fl, n):
        return self.decl.get((fl, n))

    # ------------------------------------------------------------ findings
    def findings(self, only=None):
        out = []
        for f in self.pr.files:
            if f.path in self.pr.context:
                continue
            if f.kind == "fc":
                self.fc(f, out)
                continue
            te = f.kind == "te"
            for x in dfs(self.trees[f.path]):
                got = []
                self.node(f, x, te, got)
                for i, words in got:
                    if i not in x.exc:
                        out.append(Finding(f.base, x.line, i, words))
        if only is not None:
            out = [o for o in out if o.id in only]
        return out

    def node(self, f, x, te, out):
        k, a = x.k, x.a
        add = lambda i, *w: out.append((i, w))
        if k in NAMED:
            (self.w001 if te else self.w002)(f, x, add)
        if k == "DECL":
            self.c005(x, a["attrs"] if a["fl"] == "class" else [], add)
            if a["name"] in self.ifs:
                add("E-006", a["name"])
            if not te:
                inreq = self.up(x, REQ)
                ift = self.up(x, IFT)
                if not inreq and ift is not None and ift.k == "IF":
                    add("S-005", a["name"])
                if inreq:
                    self.w003(f, x, ift, add)
                    self.w011(f, x, add)
        elif k in REQ:
            self.c006(x, add)
            if te and any(c.k == "DECL" and c.a["fl"] != "class" for c in self.reqdecls(x)):
                add("S-001")
            if not list(self.reqdecls(x)):
                add("E-009")
            if k == "GENREQ" and not a.get("q", True):
                add("S-008")
        elif k == "OPT":
            if all(c.k in ("SEMI", "COMMENT") for c in x.ch):
                add("E-009")
        elif k == "SEMI":
            add("S-003")
        elif k == "STRAY":
            self.e010(x, add)
        elif k == "HEADER":
            if not a["macro"]:
                add("S-006")
            if a["name"] != f.base[:-3]:
                add("W-009", a["name"], f.base)
        elif k in IFT:
            if x.prev is None or x.prev.k != "COMMENT":
                add("C-004", a["name"])
        elif k == "CALL":
            self.call(f, x, te, add)
        if k in ("AV", "XAV"):
            self.c005(x, a["perms"], add)
            s, t = a["src"], a["tgt"]
            if len(s) == 1 and len(t) == 1 and s == t and t != ["self"]:
                n = s[0]
                if (n.startswith("$") and n.endswith("_t")) or (not n.startswith("$") and self.owner("type", n)):
                    add("C-007")
        if k == "AV":
            self.avrule(x, add)
        if k in ("AV", "TT", "RT") and self.av:
            known = {c for c, _ in self.av}
            for c in a["cls"] or []:
                if re.match(r"\$[0-9]", c) or c.endswith("_class_set") or c in known:
                    continue
                add("E-008", c)
                break

    # -- names
    def w001(self, f, x, add):
        ns = names(x)
        if x.k == "DECL":
            ns = ns[1:]
        for n in ns:
            for fl in ("type", "attribute", "attribute_role"):
                m = self.owner(fl, n)
                if m:
                    break
            else:
                continue
            if m != f.mod and not self.required_before(x, fl, n):
                add("W-001", n, m)
                return

    @staticmethod
    def reqdecls(r):
        for c in r.ch:
            if c.k == "DECL":
                yield c
            elif c.k == "IFDEF":
                yield from Model.reqdecls(c)

    def required_before(self, x, fl, n):
        c = x
        while c is not None:
            p = c
            while p is not None:
                if p.k in REQ:
                    for d in self.reqdecls(p):
                        if d.a["fl"] == fl and (d.a["name"] == n or n in d.a["attrs"]):
                            return True
                p = p.prev
            c = c.par
        return False

    def w002(self, f, x, add):
        ift = self.up(x, IFT)
        if ift is None:
            return
        req = set()
        for y in dfs(ift):
            if y is x:
                break
            if y.k in REQ:
                for d in self.reqdecls(y):
                    req.update(names(d))
        ns = names(x)
        if x.k == "DECL":
            ns = ns[1:]
        for n in ns:
            if n in req or n == "system_r":
                continue
            for fl, w in (("type", "Type"), ("attribute", "Attribute"), ("attribute_role", "Role Attribute"),
                          ("role", "Role")):
                if self.owner(fl, n):
                    add("W-002", n, "^%s %s " % (w, n))
                    return

    def w003(self, f, x, ift, add):
        fl = x.a["fl"]
        if fl not in ("type", "attribute", "attribute_role", "role") or ift is None:
            return
        if ift.k == "IF" and ift.a["name"].endswith("_stub"):
            return
        outer = None
        p = x
        while p is not ift:
            if p.k in REQ:
                outer = p
            p = p.par
        used = set()
        s = outer.next
        while s is not None:
            used.update(names(s))
            for y in dfs(s):
                used.update(names(y))
            for y in [s] + list(dfs(s)):
                if y.k in ("DECL", "TALIAS"):
                    used.update(y.a["aliases"])
            s = s.next
        if x.a["name"] not in used:
            add("W-003", x.a["name"], "^%s %s " % ({"type": "Type", "attribute": "Attribute", "attribute_role": "Role Attribute",
                                                    "role": "Role"}[fl], x.a["name"]))

    def w011(self, f, x, add):
        fl, n = x.a["fl"], x.a["name"]
        if fl == "class" or n.startswith("$"):
            return
        m = self.owner(fl, n)
        what = "^Definition of declared %s %s not found in " % (FLWORD[fl], n)
        if m is None:
            add("W-011", n, what + "any module")
        elif m != f.mod and not (fl == "role" and m == "kernel"):
            add("W-011", n, m, what + "own module")

    # -- structure
    def c005(self, x, perms, add):
        what = {"DECL": "class declaration", "AV": "av rule", "XAV": "xav rule"}[x.k]
        prev = None
        for p in perms:
            if prev is not None and prev != "~" and p != "-" and prev >= p:
                add("C-005", "^Permissions in %s %s" % (
                    what, "not ordered (%s before %s)" % (prev, p) if prev != p else "repeated (%s)" % p))
                return
            prev = p

    def c006(self, x, add):
        if not x.ch:
            add("C-006", "^Empty ")
            return
        order = self.cfg.get("ordering_requires", ORDER_FL)
        same = self.cfg.get("ordering_requires_same_flavor", "true") in ("true", "True", "TRUE", "yes", "Yes", "YES")
        if self.pr.config is None:
            order = ORDER_FL
            same = True
        prev = None
        for d in x.ch:
            if d.k != "DECL":
                continue
            if prev is not None:
                c = self.cmp_req(prev, d, order, same)
                if c >= 0:
                    a, b = ["%s %s" % (FLWORD[q.a["fl"]], q.a["name"]) for q in (prev, d)]
                    add("C-006", *(["^Unordered declaration in require block (%s before %s)" % (a, b)] if c else
                                   ["^Repeated declaration in require block (%s)" % b]))
                    return
            prev = d

    @staticmethod
    def cmp_req(a, b, order, same):
        fa, fb = a.a["fl"], b.a["fl"]
        if fa != fb:
            return -1 if order.index(fa) < order.index(fb) else 1
        if not same:
            return -1
        x, y = a.a["name"], b.a["name"]
        i = 0
        while i < len(x) and i < len(y) and x[i] == y[i]:
            i += 1
        if x[i:] == "t" and i > 0 and x[i - 1] == "_":
            i1 = i - 1
        else:
            i1 = i
        if y[i:] == "t" and i > 0 and y[i - 1] == "_":
            i2 = i - 1
        else:
            i2 = i
        cx = ord(x[i1]) if i1 < len(x) else 0
        cy = ord(y[i2]) if i2 < len(y) else 0
        return cx - cy

    def e010(self, x, add):
        if x.a["name"] in self.cfg.get("custom_te_simple_macros", []):
            return
        p = x
        while p is not None:
            if p.k == "M4ARG" and p.par.k == "IFELSE":
                if p.next is not None:
                    pos = 1
                    q = p
                    while q.prev is not None:
                        pos += 1
                        q = q.prev
                    if pos % 3 in (1, 2):
                        return
                break
            p = p.par
        add("E-010", x.a["name"])

    # -- calls
    def call(self, f, x, te, add):
        n = x.a["name"]
        m = self.ifs.get(n)
        if m and m != f.mod and m in self.mods and self.mods[m] != "base" and not self.up(x, ("OPT",)):
            add("W-005", n, m)
        if not x.a["args"]:
            add("W-006", n)
        prev = None
        no = 0
        for s, bad, start in x.a["flat"]:
            no += start
            if bad and prev is not None:
                if not s.startswith("-") or any(self.owner(fl, prev) for fl in
                                                ("type", "attribute", "role", "attribute_role", "user")):
                    add("W-007", n, prev, "^Argument no. %d " % no)
                    break
            prev = s
        if n not in ("domain_auto_transition_pattern", "domain_transition_pattern") and n not in self.ifs:
            for i, ch in enumerate(n):
                if ch == "_":
                    pre = n[:i]
                    if pre in self.mods or (pre in ABBREV and ABBREV[pre] in self.mods):
                        add("W-010", n)
                        break
        if not te:
            ift = self.up(x, IFT)
            if ift is not None and ift.k == "IF" and n in self.tmpl:
                add("S-004", ift.a["name"], n)

    # -- av rules
    def avrule(self, x, add):
        a = x.a
        perms, cls = a["perms"], a["cls"]
        if a["fl"] == "allow" and any(p in ("*", "~") for p in perms):
            add("W-008")
        if self.macros and self.av:
            known = {p for _, ps in self.av for p in ps}
            mac = {m for m, _ in self.macros if m.endswith("_perms")}
            for p in perms:
                if p in ("*", "~") or (p.startswith("all_") and p.endswith("_perms")) or p in known or p in mac:
                    continue
                add("E-007", p)
                break
        self.s009(perms, cls, add)
        self.s010(a, add)

    def s009(self, perms, cls, add):
        if cls[0].endswith("_class_set"):
            return
        alias = {"chr_file": "term", "process": "signal"}

        def fits(p, c):
            return p.endswith(c + "_perms") or (c in alias and p.endswith(alias[c] + "_perms"))

        netlink = all(c.startswith("netlink_") for c in cls)
        sock = all(c.endswith("_socket") for c in cls)
        for p in perms:
            if not p.endswith("_perms"):
                continue
            if all(fits(p, c) for c in cls):
                if "file" in cls and any(p.endswith(o + "_perms") for o in
                                         ("lnk_file", "chr_file", "blk_file", "sock_file", "fifo_file")):
                    add("S-009", p, *cls[:len(cls) == 1])
                    return
                continue
            if netlink and p.endswith("_socket_perms"):
                continue
            if sock and not netlink and p.endswith("_socket_perms") and not p.endswith("netlink_socket_perms"):
                continue
            add("S-009", p, *cls[:len(cls) == 1])
            return

    # -- permission macros
    IMPL = {
        "ioctl": "", "getattr": "", "read": "ioctl getattr search lock", "lock": "getattr", "append": "getattr",
        "write": "ioctl getattr append lock", "create": "getattr link", "setattr": "getattr", "map": "ioctl getattr",
        "unlink": "getattr rmdir", "link": "getattr", "rename": "getattr", "open": "getattr",
        "execute": "read getattr map", "relabelfrom": "getattr", "relabelto": "getattr", "mounton": "getattr",
        "watch": "read", "add_name": "write ioctl getattr append lock", "remove_name": "write ioctl getattr append lock",
        "reparent": "getattr", "search": "getattr", "rmdir": "unlink getattr rmdir",
        "execute_no_trans": "execute read getattr map", "entrypoint": "",
    }
    PORDER = ["ioctl", "read", "write", "create", "getattr", "setattr", "lock", "relabelfrom", "relabelto", "append",
              "map", "unlink", "link", "rename", "execute", "mounton", "open", "watch", "add_name", "remove_name",
              "reparent", "search", "rmdir", "execute_no_trans", "entrypoint"]
    SUFFIX = [("_dir_perms", "dir"), ("_lnk_file_perms", "lnk_file"), ("_chr_file_perms", "chr_file"),
              ("_term_perms", "chr_file"), ("_blk_file_perms", "blk_file"), ("_sock_file_perms", "sock_file"),
              ("_fifo_file_perms", "fifo_file"), ("_file_perms", "file")]

    def raw(self, items, depth=0):
        """(set of known permissions, contains something unknown)"""
        out, unk = set(), False
        md = self.macro_map()
        for p in items:
            if p in self.IMPL:
                out.add(p)
            elif p in md and depth < 20:
                r, u = self.raw(md[p], depth + 1)
                out |= r
                unk = unk or u
            else:
                unk = True
        return out, unk

    def macro_map(self):
        if not hasattr(self, "_mm"):
            self._mm = {}
            for m, ps in self.macros or []:
                if m.endswith("_perms"):
                    self._mm.setdefault(m, ps)
        return self._mm

    def candidates(self, cls):
        """macros usable for a class: [(name, perms)] by rising size, load order among equals"""
        if not hasattr(self, "_cand"):
            self._cand = {}
            for m, ps in self.macro_map().items():
                c = next((c for s, c in self.SUFFIX if m.endswith(s)), None)
                if c is None:
                    continue
                r, u = self.raw(ps)
                if u:
                    continue
                self._cand.setdefault(c, []).append((m, r))
            for c in self._cand:
                self._cand[c].sort(key=lambda t: len(t[1]))
        return self._cand.get(cls, [])

    def suggestion(self, cls, perms):
        """set of acceptable answers as (macro, replaced tuple, added tuple); empty: no finding"""
        cand = self.candidates(cls)
        written, _ = self.raw(perms)
        ext = set()
        for p in written:
            ext.add(p)
            ext.update(self.IMPL[p].split())
        if len(written) < 2:
            return []
        if ext & {"create", "write"}:
            ext |= {"setattr", "getattr"}
        if ext & {"create", "unlink"}:
            ext |= {"rename", "getattr", "reparent"}
        ok = []
        for m, r in cand:
            if r - ext:
                continue
            cov = len(r & written)
            if cov < 2:
                continue
            repl = [p for p in perms if self.replaced(p, r & written)]
            if len(repl) < 2:
                ok.append((cov, len(r - written), m, r, None))
            else:
                ok.append((cov, len(r - written), m, r, repl))
        good = [o for o in ok if o[4] is not None]
        if not good:
            return []
        best = max((o[0], -o[1]) for o in good)
        top = [o for o in good if (o[0], -o[1]) == best]
        return [(o[2], tuple(o[4]), tuple(p for p in self.PORDER if p in o[3] - written)) for o in top]

    def replaced(self, p, mask):
        r, u = self.raw([p])
        return not u and r <= mask

    def s010(self, a, add):
        if a["fl"] != "allow" or len(a["cls"]) > 1 or a["cls"][0].endswith("_class_set"):
            return
        top = self.suggestion(a["cls"][0], a["perms"])
        if not top:
            return
        last = top[-1]
        if last[0] in a["perms"]:
            return
        add("S-010", "ANY", tuple(top))

    # ------------------------------------------------------------ fc
    def fc(self, f, out):
        for n in f.nodes:
            if n.a.get("skip"):
                continue
            add = lambda i, *w: out.append(Finding(f.base, n.line, i, w))
            if n.a.get("macro"):
                if n.a["macro"] not in self.cfg.get("custom_fc_macros", []):
                    add("E-002")
                continue
            if n.bad:
                add("E-002")
                continue
            if n.none:
                continue
            if not self.owner("user", n.user):
                add("E-003", n.user)
            if not self.owner("role", n.role):
                add("E-004", n.role)
            m = self.owner("type", n.type)
            if not m:
                add("E-005", n.type)
            elif m != f.mod:
                gen = f.base in ("base.fc", "all_mods.fc") or f.base.endswith(".mod.fc")
                skip = self.cfg.get("skip_checking_generated_fcs", "true") in ("true", "True", "TRUE", "yes", "Yes", "YES")
                if not (gen and skip):
                    add("S-002", n.type, m)
            if n.genc and n.rng is None:
                add("S-007")
            r = self.regex(n.path)
            if r:
                add("W-004", r[0], str(r[1]))

    @staticmethod
    def regex(path):
        """first suspicious character: (char, position)"""
        i = 0
        prev = ""
        n = len(path)
        while i < n:
            c = path[i]
            if c == "[" and prev != "\\":
                # a bracket expression ends at the first unescaped ]
                while i < n and not (path[i] == "]" and prev != "\\"):
                    prev = path[i]
                    i += 1
                if i >= n:
                    return None
                # the closing bracket itself is looked at next
                c = path[i]
                prev2 = prev
                prev = c
                i += 1
                continue
            nxt = path[i + 1] if i + 1 < n else ""
            if c == "." and prev != "\\" and nxt not in ("*", "+", "?"):
                return c, i + 1
            if c in "+*" and prev not in ("\\", ".", "]", ")"):
                return c, i + 1
            prev = c
            i += 1
        return None
