"""Policy project AST and renderer.

The AST mirrors the refpolicy dialect.  Rendering draws all layout decisions
from a Src and records, for every statement, the line its first token is on.
"""

WORDCH = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$*/-.\"~")


class N:
    """AST node.  k: kind, a: attributes, ch: children, exc: disabled ids text"""
    __slots__ = ("k", "a", "ch", "line", "exc", "par", "idx", "hid")

    def __init__(self, k, ch=None, **a):
        self.k = k
        self.a = a
        self.ch = ch if ch is not None else []
        self.line = 0
        self.exc = None      # (style, text) of a selint-disable comment, or None
        self.par = None
        self.idx = 0
        self.hid = False

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "N(%s,%r,%r)" % (self.k, self.a, self.ch)


def link(nodes, par=None):
    for i, n in enumerate(nodes):
        n.par = par
        n.idx = i
        link(n.ch, n)


def walk(nodes):
    for n in nodes:
        yield n
        if n.ch:
            yield from walk(n.ch)


class PFile:
    """One policy file.  kind: te / if / fc;  nodes: statements (te: first is the header)"""

    def __init__(self, mod, kind, nodes, path=None):
        self.mod = mod
        self.kind = kind
        self.nodes = nodes
        self.path = path or "%s.%s" % (mod, kind)
        self.text = None

    @property
    def base(self):
        return self.path.rsplit("/", 1)[-1]


class Layout:
    """Layout parameters of one rendering."""

    def __init__(self, noise=1, comments=True, crlf=False, join=True, tabs=True, split=True, final_nl=True, broken=False):
        self.noise = noise
        self.broken = broken
        self.comments = comments
        self.crlf = crlf
        self.join = join
        self.tabs = tabs
        self.split = split
        self.final_nl = final_nl


COMMENTS = ["# note", "#", "##", "## <summary>text</summary>", "# allow foo_t bar_t:file read;",
            "# type zz_t; ')", "#` unbalanced '", "# if(x) { \"", "\t# indented", "#'", "# $1 `a' selint-disable W-001",
            "# see policy_module(x, 1.0)", "# \xc3\xa4\xe2\x82\xac utf8"]
COMMENTS = [c.encode("latin-1").decode("utf-8") if "utf8" in c else c for c in COMMENTS]


class Writer:
    def __init__(self, src, lay):
        self.s = src
        self.lay = lay
        self.out = []
        self.line = 1
        self.col0 = True
        self.depth = 0
        self.can_join = False

    # -- raw output
    def put(self, t):
        self.out.append(t)
        self.line += t.count("\n")
        if t:
            self.col0 = t.endswith("\n")

    def nl(self):
        self.put("\n")

    def indent(self):
        if self.lay.tabs:
            self.put("\t" * self.depth)

    def noise(self, comments=True, blanks=True):
        """between two statements"""
        lay = self.lay
        if lay.noise <= 0:
            return
        s = self.s
        pct = 6 * lay.noise
        while s.chance(pct):
            k = s.below(4)
            if k == 0 and blanks:
                self.put("\n" if s.below(250) else "\n" * s.pick([120, 250, 260, 1000, 33000, 66000]))
            elif k == 1 and blanks:
                self.put(" \t\n" if s.chance(50) else "   \n")
            elif k == 2 and comments and lay.comments:
                self.put(s.pick(COMMENTS) + "\n")
                self.can_join = False
            elif k == 3 and comments and lay.comments:
                self.put("dnl " + "some m4 comment `x'\n")
                self.can_join = False

    def start(self, comments=True, joinable=True):
        """begin a statement: noise, then either a new line or the current one"""
        if not self.col0:
            if (joinable and self.can_join and self.lay.join and self.lay.noise > 0
                    and self.s.chance(3 * self.lay.noise)):
                self.put(" ")
                return
            self.nl()
        self.noise(comments)
        if self.lay.noise > 1 and self.s.chance(20):
            self.put(self.s.pick(["", " ", "\t\t", "        "]))
        else:
            self.indent()

    def toks(self, tokens, split=True):
        """emit tokens, returns the line of the first"""
        first = self.line
        prev = None
        s = self.s
        lay = self.lay
        self.tl = []
        noisy = lay.noise > 0
        for t in tokens:
            if prev is not None:
                need = prev[-1] in WORDCH and t[0] in WORDCH
                if noisy:
                    x = s.below(24) if not lay.broken else s.pick([0, 1, 20, 21, 22, 23, 23])
                    if x < 20 or (x == 23 and not (split and lay.split)):
                        self.put(" " if need or x & 1 == 0 and t not in (";", ",", ":", ")", "(", "'", "`") else "")
                    elif x == 20:
                        self.put("  ")
                    elif x == 21:
                        self.put("\t")
                    elif x == 22:
                        self.put(" " if need else "")
                    else:
                        self.put("\n" + "\t" * (self.depth + 1))
                else:
                    self.put(" " if need or t not in (";", ",", ":", ")", "(", "'", "`") and prev not in ("(", "`", "'", ":") else "")
            self.tl.append(self.line)
            self.put(t)
            prev = t
        return first

    def disable(self, exc):
        """emit a disable comment at end of line"""
        self.put(" " if self.s.chance(50) else "")
        self.put(exc)
        if self.lay.noise > 0 and self.lay.crlf is False and False:
            self.put(" ")
        self.nl()
        self.can_join = False

    def end(self, n, comments=True):
        """after a statement: its disable comment, or a trailing comment"""
        self.can_join = True
        if n is not None and n.exc and not n.a.get("exc_open"):
            self.disable(n.exc)
            return
        if comments and self.lay.comments and self.lay.noise > 0 and self.s.chance(2 * self.lay.noise):
            self.put(" " + self.s.pick(COMMENTS).strip())
            self.nl()
            self.can_join = False


def setToks(items, braces):
    """string_list: items may start with ~ (complement) or be ['*']"""
    pre = []
    it = list(items)
    while it and it[0] == "~":
        pre.append("~")
        it = it[1:]
    if len(it) == 1 and not braces:
        return pre + it
    return pre + ["{"] + it + ["}"]


def commaToks(items):
    out = []
    for i, x in enumerate(items):
        if i:
            out.append(",")
        out.append(x)
    return out


def callToks(args):
    """args: list of dict(items=[..], form=plain|brace|tick|bad, comp=bool)"""
    out = []
    for i, a in enumerate(args):
        if i:
            out.append(",")
        it = a["items"]
        f = a["form"]
        if f == "plain":
            out.append(it[0])
        elif f == "brace":
            if a.get("comp"):
                out.append("~")
            out += ["{"] + it + ["}"]
        elif f == "tick":
            out += ["`"] + it + ["'"]
        elif f == "bad":           # unquoted space
            out += it
        elif f == "quoted":
            out.append('"%s"' % it[0])
    return out


def flat_args(args):
    """[(string, has_bad_space, starts_an_argument)] as the dialect's flattening of call arguments"""
    out = []
    for a in args:
        it = a["items"]
        f = a["form"]
        n = len(out)
        if f == "quoted":
            out.append(('"%s"' % it[0], False, True))
        elif f == "tick" and not it:
            out.append(("", False, True))
        elif f == "bad":
            out.append((it[0], False, True))
            for x in it[1:]:
                out.append((x, True, False))
        else:
            for x in (["~"] if a.get("comp") else []) + list(it):
                out.append((x, False, n == len(out)))
    return out


class Renderer:
    def __init__(self, src, lay):
        self.w = Writer(src, lay)
        self.s = src

    # ---- statements
    def stmt_tokens(self, n):
        k = n.k
        a = n.a
        if k == "decl":
            fl = a["fl"]
            syn = a.get("syn", "")
            if fl == "bool":
                if syn == "gen_bool":
                    return ["gen_bool", "(", a["name"], ",", "false", ")"]
                if syn == "gen_tunable":
                    return ["gen_tunable", "(", a["name"], ",", "true", ")"]
                if syn == "gen_tunable_q":
                    return ["gen_tunable", "(", "`", a["name"], "'", ",", "false", ")"]
                return ["bool", a["name"], ";"]
            kw = {"type": "type", "attribute": "attribute", "role": "role",
                  "attribute_role": "attribute_role", "class": "class"}[fl]
            if fl == "class":
                return [kw, a["name"]] + setToks(a["attrs"], a.get("br", True)) + [";"]
            t = [kw, a["name"]]
            al = a.get("aliases") or []
            if al:
                t += ["alias"] + setToks(al, a.get("br", False))
            if a.get("attrs"):
                t += [","] + commaToks(a["attrs"])
            return t + [";"]
        if k == "reqdecl":          # require line: several names
            fl = a["fl"]
            if fl == "class":
                return ["class", a["names"][0]] + setToks(a["attrs"], a.get("br", True)) + [";"]
            return [fl] + commaToks(a["names"]) + [";"]
        if k == "typealias":
            return ["typealias", a["type"], "alias"] + setToks(a["aliases"], a.get("br", False)) + [";"]
        if k == "typeattr":
            return ["typeattribute", a["name"]] + commaToks(a["attrs"]) + [";"]
        if k == "roleattr":
            return ["roleattribute", a["name"]] + commaToks(a["attrs"]) + [";"]
        if k == "av":
            return [a["fl"]] + setToks(a["src"], a["br"][0]) + setToks(a["tgt"], a["br"][1]) + [":"] + \
                setToks(a["cls"], a["br"][2]) + setToks(a["perms"], a["br"][3]) + [";"]
        if k == "xav":
            return [a["fl"] + "xperm"] + setToks(a["src"], a["br"][0]) + setToks(a["tgt"], a["br"][1]) + [":"] + \
                setToks(a["cls"], a["br"][2]) + [a["op"]] + setToks(a["perms"], a["br"][3]) + [";"]
        if k == "tt":
            t = [a["fl"]] + setToks(a["src"], a["br"][0]) + setToks(a["tgt"], a["br"][1]) + [":"] + \
                setToks(a["cls"], a["br"][2]) + [a["dflt"]]
            if a.get("fname"):
                t.append('"%s"' % a["fname"])
            return t + [";"]
        if k == "rt":
            t = ["role_transition"] + setToks(a["src"], a["br"][0]) + setToks(a["tgt"], a["br"][1])
            if a.get("cls"):
                t += [":"] + setToks(a["cls"], a["br"][2])
            return t + [a["dflt"], ";"]
        if k == "ra":
            return ["allow"] + setToks(a["src"], a["br"][0]) + setToks(a["tgt"], a["br"][1]) + [";"]
        if k == "rtypes":
            return ["role", a["role"], "types"] + setToks(a["types"], a["br"]) + [";"]
        if k == "call":
            return [a["name"], "("] + callToks(a["args"]) + [")"]
        if k == "permissive":
            return ["permissive", a["name"], ";"]
        if k == "semi":
            return [";"]
        if k == "stray":
            return [a["name"]]
        if k == "raw":
            return list(a["toks"])
        raise AssertionError(k)

    def body(self, nodes, comments=True):
        w = self.w
        w.depth += 1
        i = 0
        for n in nodes:
            self.node(n, comments)
        w.depth -= 1

    def close(self, toks, n):
        w = self.w
        if not w.col0:
            if n.a.get("oneline") and w.can_join and w.lay.noise:
                w.put(" ")
            else:
                w.nl()
        if w.col0:
            w.indent()
        w.toks(self.drop(n, toks))
        w.end(n)

    def drop(self, n, toks):
        """tokens closing (or opening) a block, some left out on purpose"""
        d = n.a.get("drop")
        if d is None:
            return toks
        if n.a.get("drop_open") != (toks[-1] != ")" and toks[-1] != "}"):
            return toks
        n.a["off"] = sum(map(len, self.w.out))
        return [x for x in toks if x not in d]

    def hdr(self, n, toks, comments=True):
        """block opening; an opening-position disable comment goes here"""
        w = self.w
        w.start(comments)
        n.line = w.toks(self.drop(n, toks), split=True)
        if n.a.get("drop_open"):
            n.a["off"] = sum(map(len, w.out))
        w.can_join = True
        if n.exc and n.a.get("exc_open"):
            w.disable(n.exc)

    def m4arg(self, n):
        """one `...' argument of ifdef/tunable/ifelse"""
        w = self.w
        if n.a.get("word") is not None:      # bare STRING argument, no node
            w.put(n.a["word"])
            return
        w.put("`")
        w.can_join = True
        self.body(n.ch)
        if not w.col0 and (not w.can_join or (w.lay.noise == 0 and n.ch)):
            w.nl()
        w.put("'")
        w.can_join = True

    def node(self, n, comments=True):
        w = self.w
        k = n.k
        if n.hid:
            return
        if k == "optional":
            self.hdr(n, ["optional_policy", "(", "`"])
            self.body(n.ch)
            els = n.a.get("els")
            if els is not None:
                if not w.col0:
                    w.nl()
                w.indent()
                els.line = w.toks(["'", ",", "`"])
                w.can_join = True
                self.body(els.ch)
                self.close(["'", ")"], els)
                return
            self.close(["'", ")"], n)
            return
        if k == "tunable":
            t = ["tunable_policy", "("]
            if n.a.get("q", True):
                t += ["`"] + n.a["cond"] + ["'", ","]
            else:
                t += n.a["cond"] + [","]
            self.hdr(n, t)
            self.args(n)
            return
        if k == "ifdef":
            self.hdr(n, [n.a.get("kw", "ifdef"), "(", "`", n.a["cond"], "'", ","])
            self.args(n)
            return
        if k == "reqifdef":
            q = n.a.get("q", True)
            self.hdr(n, [n.a.get("kw", "ifdef"), "(", "`", n.a["cond"], "'", ","] + (["`"] if q else []))
            self.body(n.ch)
            self.close((["'"] if q else []) + [")"], n)
            return
        if k == "ifelse":
            self.hdr(n, ["ifelse", "("])
            self.args(n)
            return
        if k == "boolean":
            self.hdr(n, ["if", "("])
            w.toks([x for x in n.a["cond"]])
            w.put(") {")
            nthen = n.a["nthen"]
            w.can_join = True
            self.body(n.ch[:nthen])
            if n.a.get("els"):
                if not w.col0:
                    w.nl()
                w.indent()
                w.toks(["}", "else", "{"])
                w.can_join = True
                self.body(n.ch[nthen:])
            self.close(["}"], n)
            return
        if k == "require":
            self.hdr(n, ["require", "{"])
            self.body(n.ch)
            self.close(["}"], n)
            return
        if k == "genreq":
            q = n.a.get("q", True)
            self.hdr(n, ["gen_require", "("] + (["`"] if q else []))
            self.body(n.ch)
            self.close((["'"] if q else []) + [")"], n)
            return
        if k in ("interface", "template"):
            if not w.col0:
                w.nl()
            if n.a.get("gap", True):
                w.noise(comments=False)
            n.line = w.toks([k, "(", "`", n.a["name"], "'", ","] + self.drop(n, ["`"]))
            if n.a.get("drop_open"):
                n.a["off"] = sum(map(len, w.out))
            w.can_join = True
            if n.exc:
                w.disable(n.exc)
            self.body(n.ch)
            if not w.col0:
                w.nl()
            w.toks(self.drop(n, ["'", ")"]))
            w.nl()
            return
        if k == "comment":          # a comment that is a node (if top level, te top)
            if not w.col0:
                w.nl()
            n.line = w.line
            w.put(n.a["text"] + "\n")
            return
        if k == "userdebug":
            self.hdr(n, ["userdebug_or_eng", "(", "`"])
            self.body(n.ch)
            self.close(["'", ")"], n)
            return
        if k == "header":
            w.start(False)
            ver = n.a.get("ver", "1.0")
            if n.a["macro"]:
                n.line = w.toks(["policy_module", "(", n.a["name"], ",", ver, ")"])
            else:
                n.line = w.toks(["module", n.a["name"], ver, ";"])
            w.end(n)
            return
        if k == "define":
            w.start()
            n.line = w.toks(["define", "("] + n.a["toks"] + [")"])
            w.end(n)
            return
        w.start(comments)
        ln = w.toks(self.stmt_tokens(n))
        n.line = ln
        for c in n.ch:
            c.line = ln
        if "slip" in n.a:
            n.a["tl"] = w.tl
            n.a["off"] = sum(map(len, w.out))
        w.end(n)

    def args(self, n):
        w = self.w
        first = True
        for c in n.ch:
            if not first:
                w.put(",")
                if w.lay.noise > 0 and self.s.chance(30):
                    w.put(" ")
            first = False
            if c.k == "m4arg":
                c.line = w.line
                self.m4arg(c)
        w.put(")")
        w.end(n)

    def render(self, nodes):
        w = self.w
        for n in nodes:
            self.node(n, True)
        if not w.col0 and w.lay.final_nl:
            w.nl()
        t = "".join(w.out)
        if not w.lay.final_nl:
            t = t.rstrip("\n")
        if w.lay.crlf:
            t = t.replace("\n", "\r\n")
        return t


def render_file(pf, src, lay):
    if pf.kind == "fc":
        pf.text = render_fc(pf, src, lay)
    else:
        pf.text = Renderer(src, lay).render(pf.nodes)
    return pf.text


def render_fc(pf, src, lay):
    out = []
    line = 1
    for i, n in enumerate(pf.nodes):
        if lay.noise > 0:
            while src.chance(4 * lay.noise):
                out.append(src.pick(["\n", "# comment\n", "#/usr/foo -- system_u:object_r:x_t\n"]))
                line += 1
        n.line = line
        t = n.a["text"]
        last = i == len(pf.nodes) - 1
        out.append(t + ("" if last and pf.nodes and n.a.get("no_nl") else ("\r\n" if lay.crlf else "\n")))
        line += 1
    t = "".join(out)
    if not lay.final_nl and t.endswith("\n"):
        t = t[:-2 if lay.crlf else -1]
    return t
