"""Properties decided by comparing selint's findings with the reference model's."""
import re

import gen
import model
from engine import Fail, Property
from pol import N
from proj import argv, compare, fatal, parse, render


def excerpt(pr, files, expected, n=14):
    """a short account of a case for the evidence file"""
    out = []
    for pf in pr.files[:4]:
        t = files[pf.path]
        ls = t.replace("\r", "").split("\n")
        out.append("%s (%d lines): %s" % (pf.path, len(ls), " | ".join(x.strip() for x in ls[:n] if x.strip())[:500]))
    out.append("expected: " + "; ".join(map(repr, expected[:6])))
    return out


class ModelProperty(Property):
    ids = ()
    base = {}
    cases = {"quick": 12000, "thorough": 150000}

    def profile(self, s):
        return dict(self.base)

    def project(self, s):
        return gen.Gen(s, gen.Prof(**self.profile(s))).project()

    # findings which hinge on what is declared; not predicted where templates recurse
    needs_decl = ("W-001", "S-001", "W-002", "W-007", "W-011", "E-003", "E-004", "E-005", "E-006", "S-002")

    def comparable(self, m):
        return set(self.ids) - (set(self.needs_decl) if m.loops else set())

    def case(self, s, ctx):
        pr = self.project(s)
        files = render(pr, s)           # fixes the line numbers
        try:
            m = model.Model(pr)
        except model.Ambiguous:
            ctx.label("skipped: one name declared by two modules")
            return
        ids = self.comparable(m)
        expected = m.findings(ids)
        for x in expected:
            ctx.label("expected " + x.id)
        self.note(pr, m, ctx)
        if expected:
            ctx.nontrivial = tuple(sorted((x.file, x.line, x.id) for x in expected)) + tuple(
                sorted((k, v) for k, v in files.items() if isinstance(v, str) and k.startswith("pol/")))
            ctx.sample = excerpt(pr, files, expected)
        r = ctx.run(files, argv(pr, "-r", "pol"))
        if r.rc != 0:
            raise Fail("exit status %s for a valid policy\n%s" % (r.rc, (r.out + r.err)[-800:].decode("utf-8", "replace")),
                       "status")
        outs = parse(r)
        if fatal(outs):
            raise Fail("fatal finding for a valid policy: %s" % fatal(outs)[0].raw, "fatal")
        compare(expected, [o for o in outs if o.id in ids])
        self.also(pr, m, r, ctx)

    def note(self, pr, m, ctx):
        pass

    def also(self, pr, m, r, ctx):
        pass


RULE = ("a case is a generated policy project (1-4 modules with te, if and fc files, support files and configuration) "
        "rendered with random layout and compared, finding by finding, with the reference model's prediction; it is "
        "non-trivial if the model expects at least one finding of the property's checks")
ASSUME = ["the generated dialect of lib/gen.py and lib/pol.py", "the reference model lib/model.py states the property"]


def kinds(**w):
    """default statement weights with some raised"""
    d = {k: n for n, k in gen.DEFAULT_KINDS}
    d.update(w)
    return [(n, k) for k, n in d.items() if n]


class C11(ModelProperty):
    id = "C11"
    cases = {"quick": 28000, "thorough": 400000}
    ids = ("W-001", "S-001")
    rule = RULE
    assumptions = ASSUME

    def profile(self, s):
        return dict(nmods=(2, 4), fc=0, exc=0, ifs=(0, 1), te_body=97,
                    kinds=s.pick([kinds(), kinds(req=14, optional=9, ifdef=5, tunable=4),
                                  kinds(av=4, call=8, tt=6, rt=5, ra=5, rtypes=5, typeattr=6, roleattr=5, typealias=4,
                                        permissive=4, xav=5, decl=5)]),
                    nstmts=s.pick([(0, 7), (1, 12)]), maxdepth=s.pick([2, 3, 5]), spt=20, av=20, hdr_bad=2)


class C12(ModelProperty):
    id = "C12"
    cases = {"quick": 26000, "thorough": 360000}
    ids = ("W-002", "W-003", "W-011")
    rule = RULE
    assumptions = ASSUME

    def profile(self, s):
        return dict(nmods=(1, 3), fc=0, ifs=(1, 3), tmpls=(0, 2), te_body=s.pick([20, 60]),
                    kinds=s.pick([kinds(), kinds(req=12, optional=7, ifdef=4),
                                  kinds(av=4, call=8, tt=6, rt=5, ra=5, rtypes=5, typeattr=6, roleattr=5, typealias=4,
                                        permissive=4, xav=5, decl=5)]),
                    nstmts=s.pick([(0, 5), (1, 9)]), maxdepth=s.pick([1, 2, 4]), spt=20, av=20, req_ifdef=s.pick([6, 20]))


class C13(ModelProperty):
    id = "C13"
    cases = {"quick": 30000, "thorough": 400000}
    ids = ("W-001", "W-002", "W-011")
    rule = RULE + "; here at least one finding or non-finding must hinge on a name created by a template call"
    assumptions = ASSUME + ["recursive templates: only that the run goes on and structural findings are unaffected"]
    loop_ids = ("C-004", "S-003", "S-006", "W-006", "E-009", "E-010", "C-006", "S-008", "C-005", "W-008")

    def comparable(self, m):
        return set(self.loop_ids if m.loops else self.ids)

    def profile(self, s):
        return dict(nmods=(2, 4), fc=0, ifs=(0, 1), tmpls=(1, 2), tmpl_calls=60, te_body=95, spt=0, av=0, config=20,
                    kinds=kinds(call=22, decl=12, typealias=5, av=6, req=3), nstmts=(1, 6), maxdepth=2)

    def project(self, s):
        g = gen.Gen(s, gen.Prof(**self.profile(s)))
        pr = g.project()
        if not any(f.kind == "if" for f in pr.files):
            return pr
        self.calls(s, g, pr)
        m = None
        for _ in range(12):
            try:
                m = model.Model(pr)
                break
            except model.Ambiguous:
                # one template call less
                tm = {t for mm in g.mods for t in mm.tmpls}
                cs = [n for f in pr.files if f.kind == "te" or f.kind == "if" for n in self.walk(f.nodes) if n.k == "call" and n.a["name"] in tm]
                if not cs:
                    return pr
                s.pick(cs).a["name"] = "some_pattern"
        if m is None:
            return pr
        literal = set()
        for f in pr.files:
            if f.kind in ("te", "if"):
                for x in model.dfs(m.trees[f.path]):
                    if x.k == "DECL":
                        literal.add(x.a["name"])
                    literal.update(x.a.get("aliases") or [])
        made = sorted((fl, n, o) for (fl, n), o in m.decl.items() if n not in literal and o != "__assumed__" and n
                      and re.match(r"^[A-Za-z][A-Za-z0-9_]*$", n))
        self.made = made
        near = []
        for fl, n, o in made[:8]:
            for k in ("x" + n, n + "_t", n[:-2] or "q", n.replace("_", "", 1), n.replace("foo", "bar")):
                near.append((fl, k, o))
        pool = made + made + near
        if not pool:
            return pr
        tes = [f for f in pr.files if f.kind == "te"]
        for _ in s.many(1, 10, 85):
            fl, n, o = s.pick(pool)
            if not re.match(r"^[A-Za-z][A-Za-z0-9_]*$", n) or n.startswith("dnl"):
                continue
            f = s.pick(tes)
            f.nodes.append(self.use(s, fl, n))
        names = [x for x in pool if re.match(r"^[A-Za-z][A-Za-z0-9_]*$", x[1])]
        for f in pr.files:
            if f.kind == "if" and names and s.chance(60):
                req = [N("reqdecl", fl=fl if fl in gen.ORDER_FL else "type", names=[n])
                       for fl, n, o in [s.pick(names) for _ in range(1 + s.below(4))]]
                uses = [self.use(s, fl, n) for fl, n, o in [s.pick(names) for _ in range(s.below(3))]]
                f.nodes.append(N("comment", text="#"))
                f.nodes.append(N("interface", [N("genreq", req, q=True)] + uses, name=g.fresh("%s_probe" % f.mod)))
        return pr

    def walk(self, ns):
        for n in ns:
            yield n
            yield from self.walk(n.ch)

    def calls(self, s, g, pr):
        """more template calls with all argument forms"""
        tm = [t for m in g.mods for t in m.tmpls]
        if not tm:
            return
        tes = [f for f in pr.files if f.kind == "te"]
        for _ in s.many(1, 5, 70):
            args = []
            f = s.pick(tes)
            # mostly words of its own for every module, since a name declared by two modules has no determined owner
            q = tes.index(f) if s.chance(85) else s.below(9)
            for _ in range(s.below(4) if s.chance(85) else 8 + s.below(5)):
                w = [x + (str(q) if q else "") for x in ("foo", "bar", "staff", "user", "mail_user", "a%d" % s.below(9))]
                k = s.wpick([(12, "plain"), (2, "brace"), (2, "tick"), (1, "bad"), (1, "empty"), (1, "quoted")])
                if k == "plain":
                    args.append({"items": [s.pick(w)], "form": "plain"})
                elif k == "empty":
                    args.append({"items": [], "form": "tick"})
                elif k == "quoted":
                    args.append({"items": [s.pick(w)], "form": "quoted"})
                elif k == "tick":
                    args.append({"items": [s.pick(w)], "form": "tick"})
                else:
                    args.append({"items": [s.pick(w), "-" + s.pick(w) if k == "bad" else s.pick(w)], "form": k})
            c = N("call", name=s.pick(tm), args=args)
            if s.chance(25):
                c = N("optional", [c])
            elif s.chance(15):
                c = N("ifdef", [N("m4arg", [c])], cond="init_systemd", kw="ifdef")
            ifs = [n for x in pr.files if x.kind == "if" for n in x.nodes if n.k == "interface"]
            if ifs and s.chance(15):
                # an interface which calls the template, maybe one defined later
                body = s.pick(ifs).ch
                body.insert(s.below(len(body) + 1) if not any(n.k == "optional_else" for n in body) else 0, c)
                continue
            f.nodes.insert(1 + s.below(len(f.nodes)), c)
            self.order(f)

    @staticmethod
    def order(f):
        """an else branch has to stay behind its optional"""
        els = [n for n in f.nodes if n.k == "optional_else"]
        for e in els:
            f.nodes.remove(e)
        for e in els:
            for i, n in enumerate(f.nodes):
                if n.k == "optional" and n.a.get("els") is e:
                    f.nodes.insert(i + 1, e)
                    break

    @staticmethod
    def use(s, fl, n):
        if fl == "role":
            return N("rtypes", role=n, types=[n if s.chance(20) else "ghost_t"], br=False)
        if fl == "attribute_role":
            return N("roleattr", name="ghost_r", attrs=[n])
        return N("av", fl="allow", src=[n], tgt=["self"], cls=["file"], perms=["read"], br=(False,) * 4)

    def note(self, pr, m, ctx):
        ctx.label("template calls expanded", m.calls_expanded)
        if m.loops:
            ctx.label("projects with recursive templates")
        ctx.label("names created by templates", len(getattr(self, "made", ())))


class C14(ModelProperty):
    id = "C14"
    ids = ("E-002", "E-003", "E-004", "E-005", "S-002", "S-007", "W-004")
    rule = RULE
    assumptions = ASSUME
    cases = {"quick": 52000, "thorough": 800000}

    def profile(self, s):
        return dict(nmods=(1, 3), fc=100, ifs=(0, 0), tmpls=(0, 0), te_body=10, spt=0, av=0, modconf=10, nstmts=(0, 2),
                    fc_lines=s.pick([8, 20]), badfmt_fc=s.pick([0, 12, 30]), fc_macros=s.pick([0, 3]), config=70, gen_fc=s.pick([0, 0, 40]))


class C15(ModelProperty):
    id = "C15"
    cases = {"quick": 16000, "thorough": 190000}
    ids = ("W-005", "W-006", "W-007", "W-010", "S-004")
    rule = RULE
    assumptions = ASSUME

    def profile(self, s):
        return dict(nmods=(2, 5), fc=0, ifs=(1, 3), tmpls=(0, 2), if_tmpl_calls=8, tmpl_calls=8, te_body=95, spt=0, av=0,
                    modconf=s.pick([90, 100, 40]), kinds=kinds(call=30, av=4, optional=9, tunable=4, ifdef=4, req=1),
                    nstmts=(1, 8), maxdepth=s.pick([2, 4]), odd_calls=s.pick([0, 35]))


class C16(ModelProperty):
    id = "C16"
    cases = {"quick": 30000, "thorough": 430000}
    ids = ("C-005", "W-008", "E-007", "E-008", "C-007")
    rule = RULE
    assumptions = ASSUME

    def profile(self, s):
        return dict(nmods=(1, 2), fc=0, ifs=(0, 2), te_body=97, spt=s.pick([100, 80, 0]), av=s.pick([100, 80, 0]),
                    kinds=kinds(av=40, xav=8, tt=8, rt=5, req=5), nstmts=(1, 12), maxdepth=2, perm_order=s.pick([75, 30, 97]),
                    rand_av=s.pick([0, 15]))

    def also(self, pr, m, r, ctx):
        t = (r.out + r.err).decode("utf-8", "replace")
        for cid, need in (("E-007", bool(m.macros and m.av)), ("E-008", bool(m.av))):
            said = re.search(r"%s is not performed" % cid, t) is not None
            if said == need:
                raise Fail("%s %s although the definitions it needs were %sloaded" % (
                    cid, "is announced as skipped" if said else "is not announced as skipped", "" if need else "not "), "announce")


class C17(ModelProperty):
    id = "C17"
    cases = {"quick": 45000, "thorough": 420000}
    ids = ("S-009", "S-010")
    rule = RULE
    assumptions = ASSUME + ["implied permissions as tabulated in lib/model.py (IMPL)"]

    def profile(self, s):
        return dict(nmods=(1, 2), fc=0, ifs=(0, 1), te_body=100, spt=100, av=70, rand_spt=s.pick([0, 0, 1, 2, 3, 3]),
                    kinds=[(60, "av"), (2, "optional"), (1, "ifdef"), (1, "xav")], nstmts=(3, 16), maxdepth=2,
                    sets=10, rich_perms=s.pick([0, 60]))


class C18(ModelProperty):
    id = "C18"
    cases = {"quick": 24000, "thorough": 320000}
    ids = ("C-004", "C-006", "S-003", "S-005", "S-006", "S-008", "W-009", "E-006", "E-009", "E-010")
    rule = RULE
    assumptions = ASSUME

    def profile(self, s):
        return dict(nmods=(1, 3), fc=0, ifs=(0, 3), te_body=90, spt=0, av=0, hdr_bare=30, hdr_bad=20, odd_mod=s.pick([0, 8]),
                    kinds=kinds(semi=6, stray=6, req=14, optional=8, ifelse=5, decl=6, av=4, boolean=3, userdebug=3),
                    nstmts=(0, 7), maxdepth=s.pick([2, 4]), config=75, clash=30, req_ifdef=s.pick([6, 15]))


PROPERTIES = [C11(), C12(), C13(), C14(), C15(), C16(), C17(), C18()]
