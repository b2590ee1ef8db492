"""Robustness (C01, C02) under AddressSanitizer/UBSan, and acceptance and rejection of the policy language (C03)."""
import re

import gen
import pol
from engine import Fail, Property
from pol import Layout, N, link
from proj import argv, fatal, layout, parse, render, support
from props_meta import RICH
from props_model import kinds

KEYWORDS = """policy_module module type typealias alias attribute bool typeattribute roleattribute role types attribute_role
allow allowxperm auditallow auditallowxperm dontaudit dontauditxperm neverallow neverallowxperm type_transition type_member
type_change range_transition role_transition optional_policy gen_require gen_bool gen_tunable require tunable_policy ifelse
refpolicywarn class common inherits if else ifdef ifndef genfscon sid portcon netifcon nodecon fs_use_trans fs_use_xattr
fs_use_task define gen_user gen_context permissive typebounds interface template userdebug_or_eng dnl self true false""".split()
PUNCT = list("(),{}:;`'~*-.!^&|=<>@#\"\\[]%+?/$ \t\n\r") + ["&&", "||", "!=", "==", "`'", "')", "(`", "',`", "<<none>>", "\r\n"]
WORDS = ["$1", "$*", "$0", "$12345678901234567890", "$$", "$", "1.0", "1.0.0", "0", "99999999999999999999", "0x10-0x20",
         "127.0.0.1", "::1", "a::b", "--", "-d ", "-- ", "s0", "s0:c0.c1023", "system_u", "object_r", "foo_t", "foo_exec_t", "alpha_t",
         "a", "_t", "foo_perms", "read_file_perms", "r_file_perms", "file", "process", "#selint-disable:W-001",
         "#selint-disable: E-003, S-001", "#selint-disable:", "\"x\"", "\"\"", "\"$1\"", "gen_context(", "corecmd_exec_bin",
         "foo_domtrans", "foo_filetrans", "x_role", "dev_read", "files_pid_file", "policy_module(x, 1.0)", "type a_t;",
         "ifdef(`x',`", "gen_require(`", "optional_policy(`", "interface(`x',`", "template(`x_template',`"]
TOK = re.compile(rb"[A-Za-z0-9_$*/.-]+|[ \t]+|\r?\n|[^A-Za-z0-9]", re.S)
BYTES = [b"\0", b"\xff", b"\x80", b"\xc3\xa4", b"\x1b", b"\x0c", b"\x0b", b"\x7f", b"\xef\xbb\xbf", b"\r", b"\n"]

TOPICS = {
    "fc": ["/usr/bin/x", "--", "-d", "-x", "gen_context(system_u:object_r:foo_t,s0)", "gen_context(", "gen_context(,", ")", "system_u",
           ":", "::", "object_r:foo_t:s0", "<<none>>", "<<none", "\t", " ", "\n", "\r\n", "s0 - mcs_systemhigh", "ifdef(`x',`", "')",
           "#", "\\", ".*", "[", "*", "(/.*)?", "-", "my_fc(x)", "my_fc(", ",", "gen_context(a:b:c,s0,c0)", "a:b:c:d:e"],
    "modules.conf": ["alpha", "=", "base", "module", "off", "\n", " ", "\t", "#", "==", "foo = base\n", "= module\n", "foo =\n", "\r\n", "x"],
    "access_vectors": ["class", "common", "inherits", "{", "}", "file", "read", "write", "#", "\n", "dir", ";", "common file { read }",
                       "class dir inherits file { search }", "class fd { use }"],
    "spt": ["define(`", "a_perms", "b_perms", "',`", "{", "}", "read", "write", "')", "define(`a_file_perms',`{ read b_file_perms }')\n",
            "define(`b_file_perms',`{ a_file_perms }')\n", "refpolicywarn(`x')", "define", "(", ")", "#", "\n", "~", "*", "-", "x_perms"],
    "conf": ["severity", "=", "{", "}", ",", "\"", "'", "style", "convention", "warning", "error", "fatal", "disable", "enable_normal",
             "enable_source", "assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros", "ordering_rules",
             "ordering_requires", "ordering_requires_same_flavor", "skip_checking_generated_fcs", "true", "maybe", "W-001", "C-001",
             "refpolicy", "refpolicy-lax", "#", "//", "/*", "*/", "\n", "include", "include(\"selint.conf\")", "${HOME}", "${X:-y}", "\\",
             "\\x", "+=", "type", "bool", "function(", ")"],
}


def words(kind):
    return TOPICS.get(kind) or None


def anytok(s, kind):
    if kind in TOPICS and s.chance(70):
        return s.pick(TOPICS[kind])
    k = s.below(10)
    if k < 4:
        return s.pick(PUNCT)
    if k < 7:
        return s.pick(KEYWORDS)
    if k < 9:
        return s.pick(WORDS)
    return s.pick(["a" * 300, "x" * 5000, "$1" * 200, "/" * 3000, "-" * 100, "a" * 20000, "$1_" * 3000])


def b(t):
    return t.encode("utf-8", "surrogateescape") if isinstance(t, str) else t


LIMIT = 200000


def mutate(s, t, kind, others):
    """one mutation of the bytes t"""
    m = s.below(15)
    n = len(t)
    if m < 7:
        toks = TOK.findall(t)
        k = len(toks)
        if k:
            i = s.below(k)
            if m == 0:
                del toks[i:i + s.pick([1, 1, 1, 2, 5])]
            elif m == 1:
                toks.insert(i, b(anytok(s, kind)))
            elif m == 2:
                toks[i] = b(anytok(s, kind))
            elif m == 3:
                j = s.below(k)
                toks[i], toks[j] = toks[j], toks[i]
            elif m == 4:
                w = toks[i:i + s.rng_int(1, 12)]
                j = s.below(k)
                toks[j:j] = w * s.pick([1, 1, 2, 30])
            elif m == 5:
                toks[i] = toks[s.below(k)]
            else:
                del toks[i:]
        else:
            toks = [b(anytok(s, kind))]
        t = b"".join(toks)
    elif m == 7:
        i = s.below(n + 1)
        t = t[:i]
    elif m == 8 and n:
        i = s.below(n)
        t = t[:i] + s.pick(BYTES) + t[i + s.below(2):]
    elif m == 9 and n:
        i = s.below(n)
        t = t[:i] + bytes([t[i] ^ (1 << s.below(8))]) + t[i + 1:]
    elif m == 10:
        ls = t.split(b"\n")
        if s.chance(50):
            ls = s.shuffle(ls) if len(ls) < 60 else ls[::-1]
        else:
            i = s.below(len(ls))
            ls[i:i] = ls[s.below(len(ls)):][:3]
        t = b"\n".join(ls)
    elif m == 11 and others:
        o = s.pick(others)
        i = s.below(len(o) + 1)
        j = s.below(n + 1)
        t = t[:j] + o[i:i + s.pick([20, 200, 2000])] + t[j:]
    elif m == 12:
        t = t.replace(b"\n", s.pick([b"\r\n", b"\r", b"", b" ", b"\n\n", b"\0\n", b"\\\n"]))
    elif m == 13:
        # a name replaced everywhere by the shortest or oddest ones
        w = sorted(set(re.findall(rb"[A-Za-z][A-Za-z0-9_]*", t)))
        if w:
            for x in ([s.pick(w)] if s.chance(60) else s.sample(w, min(len(w), 8))):
                y = s.pick([b"t", b"r", b"x", b"$", b"/", b"$1", b"t_t", b"_t", b"9", b"a_", b"if", b"te", b"-", b"$*", b"*", b"x" * 255, x[:1], x + x, x[:-1], x[1:]])
                t = re.sub(rb"(?<![A-Za-z0-9_])" + x + rb"(?![A-Za-z0-9_])", lambda m_: y, t)
    else:
        i = s.below(n + 1)
        x = bytes(s.below(256) for _ in range(s.rng_int(1, 20)))
        t = t[:i] + x + t[i:]
    return t[:LIMIT]


def soup(s, kind):
    return b"".join(b(anytok(s, kind)) + s.pick([b"", b" ", b"\n"]) for _ in s.many(1, 120, 96))


def junk(s):
    return bytes(s.below(256) for _ in range(s.rng_int(0, 300)))


def fuzz_argv(s, base):
    a = list(base)
    if s.chance(15):
        a += ["-d", s.pick(gen.ALLIDS)]
    if s.chance(15):
        a += ["-e", s.pick(gen.ALLIDS)]
    elif s.chance(6):
        a += ["-E", "-e", s.pick(gen.ALLIDS)]
    if s.chance(15):
        a += ["-l", s.pick(["C", "S", "W", "E", "F", "style", "fatal"])]
    for o in ("-S", "-F", "-m", "-v"):
        if s.chance(8):
            a.append(o)
    if s.chance(6):
        a.append("--color=on")
    return a


class C01(Property):
    id = "C01"
    flavours = ("asan",)
    cpu = 20
    cases = {"quick": 18000, "thorough": 300000}
    rule = ("a case runs the AddressSanitizer/UBSan build over a generated project whose .te, .if and .fc files took token or byte level "
            "mutations, are token soup, random bytes, another kind of file, or a pathological structure (nesting, long lists, long tokens, "
            "many statements); it is non-trivial if the input differs from the generated valid project and selint got to reading it (exit "
            "status 0, 65 or 70)")
    assumptions = ["files up to 300 kB; the CPU limit taken as a hang is 20 s of the sanitized build",
                   "recursive templates whose expansion grows exponentially with the input are not generated"]

    def case(self, s, ctx):
        mode = s.wpick([(10, "project"), (3, "soup"), (1, "junk"), (2, "confuse"), (2, "struct")])
        ctx.label("mode " + mode)
        d = dict(RICH, nmods=(1, 3), if_tmpl_calls=s.pick([0, 20]), tmpl_calls=25, exc=s.pick([0, 15]), fc=60, config=40,
                 exc_bool=True, fc_macros=2, gen_fc=10, odd_mod=10, odd_calls=10)
        if s.chance(30):
            d["kinds"] = kinds(call=14, optional=8, req=8, ifdef=4, define=4, raw=4, ifelse=4, boolean=4, tunable=4)
        pr = gen.Gen(s, gen.Prof(**d)).project()
        files = {k: (v if isinstance(v, tuple) else b(v)) for k, v in render(pr, s).items()}
        pf = [f.path for f in pr.files]
        before = {p: files[p] for p in pf}
        if mode == "project":
            for _ in s.many(1, 8, 60):
                p = s.pick(pf)
                kd = p.rsplit(".", 1)[1]
                files[p] = mutate(s, files[p], kd, [files[x] for x in pf])
        elif mode == "soup":
            for _ in s.many(1, 3, 40):
                p = s.pick(pf)
                kd = p.rsplit(".", 1)[1]
                hd = b"policy_module(x, 1.0)\n" if kd == "te" and s.chance(80) else \
                    b"interface(`x',`\n" if kd == "if" and s.chance(60) else b""
                files[p] = hd + soup(s, kd)
        elif mode == "junk":
            files[s.pick(pf)] = junk(s)
        elif mode == "confuse":
            src = list(before.values()) + [b("define(`a_perms',`{ read }')\n"), b("class file\n{\n\tread\n}\n"),
                                           b("common file\n{\n\tread\n}\n"), b("alpha = base\n"), b"", b"\n", b"#x", b"# x\n"]
            for _ in s.many(1, 4, 50):
                files[s.pick(pf)] = s.pick(src)
            if s.chance(20):
                n = "pol/" + s.pick([".te", "x.te.te", "a b.te", "x.if", "-.te", "\xff.te", "%s.if", "q.fc", "n\n.te", "all.te", "y" * 200 + ".te"])
                files[n] = s.pick(src)
                pf = pf + [n]
        else:
            p = s.pick(pf)
            files[p] = self.struct(s, p.rsplit(".", 1)[1])
        root = ["-r", "pol"] if s.chance(85) else [x for x in pf if s.chance(80)] or ["pol/none.te"]
        if s.chance(10) and len(pf) > 1:
            c = s.pick(pf)
            files["ctx/" + c] = files.pop(c)
            root = ["--context=ctx"] + [x for x in root if x != c]
        base = argv(pr)
        if not s.chance(75):
            base = [x for x in base if x != "-s"]
        av = fuzz_argv(s, base)
        if mode == "struct" and any(isinstance(v, bytes) and v.count(b"`\n") + v.count(b"{\n") > 200 for v in files.values()):
            # the ordering check takes cubic time in the nesting depth
            av = [x for x in av if x != "C-001" and x not in ("-d", "-e", "-E")] if "C-001" in av else av
            av += ["-d", "C-001"]
        r = ctx.run(files, av + root, flavour="asan")
        ctx.label("exit %d" % r.rc)
        if r.rc in (0, 65, 70) and any(files.get(p) != before.get(p) for p in pf):
            ctx.nontrivial = tuple((p, files[p]) for p in pf if p in files)
            ctx.sample = ["mode %s, %s, exit %d" % (mode, " ".join(r.argv), r.rc)] + \
                ["%s: %r" % (p, files[p][:250]) for p in pf if p in files and files[p] != before.get(p)][:2]

    @staticmethod
    def struct(s, kind):
        n = s.pick([3, 50, 700, 3000])
        k = s.below(14)
        hd = "policy_module(m, 1.0)\n" if kind == "te" else "interface(`m_x',`\n" if kind == "if" else ""
        tl = "" if kind == "te" else "')\n"
        if kind == "fc":
            t = [lambda: "/" + "a" * n * 30, lambda: "/a\t--\tgen_context(" + "a:" * n, lambda: "/a\tgen_context(a:b:c" + ",s0" * n + ")",
                 lambda: "/a\t" * n, lambda: "/a" + "(" * n + "\t" + "<<none>>" * n, lambda: "/x\t<<none>>\n" * n,
                 lambda: "/" + "\\" * n + " a:b:c", lambda: "my_fc(" * n, lambda: "/a" + " " * n * 10,
                 lambda: "ifdef(`x',`\n" * n + "')\n" * n, lambda: "/a" + "[" * n + "\tgen_context(a:b:c)", lambda: "#" * n,
                 lambda: "/d(/.*)?\tgen_context(system_u:object_r:" + "x" * n * 10 + ",s0)", lambda: ":" * n][k]()
            return b(t)[:300000]
        o = ["optional_policy(`\n", "ifdef(`x',`\n", "tunable_policy(`a',`\n", "if (a) {\n", "ifelse(`", "gen_require(`\n",
             "userdebug_or_eng(`\n", "interface(`x',`\n"]
        if k == 0:
            w = s.pick(o)
            t = w * n + "allow a_t b_t:file read;\n" + s.pick(["')\n", "}\n", ""]) * n
        elif k == 1:
            t = "allow a_t { " + "b_t " * n * 3 + "}:file { " + "read " * n + "};\n"
        elif k == 2:
            t = "type " + "a" * n * 30 + ";\n"
        elif k == 3:
            t = s.pick([";", "type a_t;\n", "f(a)\n", "# c\n", "x\n", "optional_policy(`f(a)')\n", "allow a_t self:file read;\n"]) * n * 8
        elif k == 4:
            t = "if (" + s.pick(["(", "! ", "a && ", "((a) ^ "]) * n + "a" + ")" * n + ") { f(a) }\n"
        elif k == 5:
            t = "f(" + s.pick(["a,", "`a b',", "{ a b },", "a ", "~ ", "`',", "$1,"]) * n + "a)\n"
        elif k == 6:
            t = "allow " + "~ " * n + "a_t b_t:file read;\n"
        elif k == 7:
            t = "type a_t" + ", b" * n + ";\n" + "type c_t alias { " + "d_t " * n + "};\n"
        elif k == 8:
            t = "refpolicywarn(`" + "a b, " * n + "')\n" + "define(`x',`" + "a b " * n + "')\n"
        elif k == 9:
            m = min(n, 60)
            t = ""
            pre = "".join("template(`t%d_template',`\n\ttype $1_t;\n%s')\n" % (i, "\tt%d_template($1_%s)\n" % (i + 1, "x" * 40) if i + 1 < m else "")
                          for i in range(m))
            return b(pre if kind == "if" else hd + "t0_template(a)\n")
        elif k == 10:
            if kind == "if":
                return b("".join("interface(`a%d',`\n\ta%d($1)\n')\n" % (i, (i + 1) % n) for i in range(min(n, 700))))
            t = "".join("type a%d_t;\n" % i for i in range(n))
        elif k == 11:
            t = "ifdef(" * n + "ifelse(" * n + "`" * n + "'" * n
        elif k == 12:
            t = "allow a_t b_t:file " + "#c\n" * n + "read;" + "\n" * n + " " * n * 10 + "}"
        else:
            n = min(n, 700)
            t = "gen_require(`\n" + "\ttype " + ", ".join("t%d_t" % i for i in range(n)) + ";\n')\n" + "allow t1_t t2_t:file read; " * n
        return b(hd + t + (tl if s.chance(80) else ""))[:300000]


GETOPT = ["-c", "-d", "-e", "-E", "-F", "-h", "-l", "-m", "-r", "-s", "-S", "-V", "-v", "--config", "--context", "--disable", "--enable",
          "--only-enabled", "--fail", "--help", "--level", "--modules-conf", "--recursive", "--source", "--summary", "--summary-only",
          "--verbose", "--version", "--color", "--debug-parser", "--hidden", "--nosuch", "-z", "--", "-", ""]
OPTARG = ["selint.conf", "pol", "pol/alpha.te", "W-001", "E-003", "C", "S", "W", "E", "F", "X", "convention", "style", "warning", "error",
          "fatal", "on", "auto", "auto", "off", "", "none", "no/such/file", ".", "..", "/nonexistent", "ctx", "x" * 3000, "W-0001",
          "Z-999", "%s%n", "a,b", "W-001,W-002", "\xff", "pol/modules.conf", "pol/access_vectors", "@CWD@/pol", "pol/"]


class C02(Property):
    id = "C02"
    flavours = ("asan",)
    cpu = 20
    cases = {"quick": 24000, "thorough": 400000}
    rule = ("a case runs the AddressSanitizer/UBSan build over a small generated project with mutated, random, missing or pathological "
            "modules.conf, access_vectors, obj_perm_sets.spt, configuration file or kernel class directory, or with a random argument "
            "vector; it is non-trivial if a support file or the configuration differs from a well-formed one, or an option beyond the "
            "plain command line is given")
    assumptions = ["chains of permission macros up to 500 long", "the CPU limit taken as a hang is 20 s of the sanitized build"]

    def case(self, s, ctx):
        kd = kinds(av=30, req=4)
        pr = gen.Gen(s, gen.Prof(nmods=(1, 2), nstmts=(0, 4), ifs=(0, 1), tmpls=(0, 1), fc=30, modconf=100, av=100, spt=100, config=100,
                                 rand_av=s.pick([0, 20]), rand_spt=s.pick([0, 1, 2]), kinds=kd, rich_perms=30)).project()
        pr.source = s.chance(85)
        files = {k: (v if isinstance(v, tuple) else b(v)) for k, v in render(pr, s).items()}
        sup = [k for k in files if not k.endswith((".te", ".if", ".fc")) and not isinstance(files[k], tuple)]
        kind = {"modules.conf": "modules.conf", "access_vectors": "access_vectors", "obj_perm_sets.spt": "spt", "selint.conf": "conf"}
        root = None
        base = argv(pr) + ["-r", "pol"]
        mode = s.wpick([(8, "mutate"), (2, "soup"), (1, "junk"), (3, "struct"), (3, "argv"), (2, "kernel"), (1, "odd"), (2, "values")])
        ctx.label("mode " + mode)
        nt = mode != "mutate"
        if mode == "mutate":
            for _ in s.many(1, 6, 60):
                p = s.pick(sup)
                o = files[p]
                files[p] = mutate(s, o, kind[p.rsplit("/", 1)[-1]], [files[x] for x in sup])
                nt = nt or files[p] != o
        elif mode == "soup":
            for _ in s.many(1, 3, 40):
                p = s.pick(sup)
                files[p] = soup(s, kind[p.rsplit("/", 1)[-1]])
        elif mode == "junk":
            files[s.pick(sup)] = junk(s)
        elif mode == "struct":
            p = s.pick(sup)
            files[p] = self.struct(s, kind[p.rsplit("/", 1)[-1]])
        elif mode == "odd":
            p = s.pick(sup)
            q = s.below(5)
            if q == 0:
                files[p] = ("dir",)
            elif q == 1:
                del files[p]
            elif q == 2:
                files[p] = ("link", "no-such-target")
            elif q == 3:
                files["pol/x/" + p.rsplit("/", 1)[-1]] = files[s.pick(sup)]
            else:
                files["pol/loop"] = ("link", "..")
        elif mode == "values":
            self.values(s, pr, files)
        elif mode == "kernel":
            root = "kern"
            base = [x for x in base if x != "-s"]
            self.kernel(s, files)
        if mode == "argv" or s.chance(10):
            base = self.argv(s, base)
            nt = True
        r = ctx.run(files, base, flavour="asan", root=root)
        ctx.label("exit %d" % r.rc)
        if nt:
            ctx.nontrivial = (tuple(base), tuple((k, files.get(k)) for k in sup), tuple(sorted(k for k in files if k.startswith("kern/"))))
            ctx.sample = ["mode %s, %s, exit %d" % (mode, " ".join(map(repr, base))[:300], r.rc)] + \
                ["%s: %r" % (p, files[p][:200]) for p in sup[:2] if p in files]

    @staticmethod
    def kernel(s, files):
        for c, ps in s.sample(sorted(gen.CLASSES.items()), s.rng_int(0, 6)):
            base = "kern/sys/fs/selinux/class/%s" % c
            k = s.below(8)
            if k == 0:
                files[base] = ("dir",)
            elif k == 1:
                files[base] = b"x"
            elif k == 2:
                files[base + "/perms"] = b"not a directory"
            else:
                for q in ps[:s.rng_int(0, len(ps))]:
                    files[base + "/perms/" + q] = s.pick([b"1\n", b"", b"\xff" * 50])
            if s.chance(70):
                files.setdefault(base + "/index", b"1") if k != 1 else None
        if s.chance(20):
            files["kern/sys/fs/selinux/class"] = ("dir",)
        # plain files may be in the way of directories
        for p in list(files):
            parts = p.split("/")
            for i in range(1, len(parts)):
                q = "/".join(parts[:i])
                if q in files and not isinstance(files[q], tuple):
                    del files[q]
        if s.chance(50):
            files["kern/usr/share/selinux/devel/include/support/obj_perm_sets.spt"] = soup(s, "spt")
        if s.chance(50):
            d = s.pick(["system", "kernel", "support", ".hid", "system/deep"])
            files["kern/usr/share/selinux/devel/include/%s/x.if" % d] = s.pick([soup(s, "if"), b"interface(`x_y',`\n\ttype a_t;\n')\n"])
        if s.chance(30):
            files["kern/var/lib/selinux/%s/active/modules" % s.pick(["refpolicy", "x"])] = ("dir",)

    @staticmethod
    def argv(s, base):
        a = []
        if s.chance(60):
            a = list(base)
        for _ in s.many(0, 6, 65):
            i = s.below(len(a) + 1)
            o = s.pick(GETOPT)
            k = s.below(4)
            if k == 0 and o.startswith("--"):
                ins = [o + "=" + s.pick(OPTARG)]
            elif k == 1:
                ins = [o + s.pick(OPTARG[:12])]
            elif k == 2:
                ins = [o, s.pick(OPTARG)]
            else:
                ins = [o]
            a[i:i] = ins
        if s.chance(15) and a:
            del a[s.below(len(a))]
        return [x.replace("\0", "") for x in a]

    @staticmethod
    def values(s, pr, files):
        """well formed support files whose names have any length, and policy lines which use them"""
        base = [f.split("/")[-1] for f in files] + gen.FC_MACROS + ["foo_t", "system_u", "W-001", "type", "a" * 7, ""]

        def name():
            x = s.pick(base)
            k = s.below(6)
            if k == 0:
                return x[:s.below(len(x) + 1)]
            if k == 1:
                return x + "x" * s.pick([1, 30, 90, 110, 118, 119, 120, 121, 130, 239, 250, 500])
            if k == 2:
                return "".join(s.pick("ab_( \t-$/") for _ in range(s.below(12)))
            if k == 3:
                return "m" * s.pick([1, 2, 16, 64, 119, 120, 127, 128, 255, 256, 1000])
            return x
        names = [name() for _ in range(s.rng_int(2, 8))]
        cfg = []
        for o in ("disable", "enable_normal", "enable_source", "assume_users", "assume_roles", "custom_fc_macros", "custom_te_simple_macros",
                  "ordering_requires"):
            if s.chance(70 if o.startswith("custom") else 25):
                cfg.append("%s = { %s }" % (o, ", ".join('"%s"' % s.pick(names).replace("\\", "") for _ in range(s.below(5)))))
        files["selint.conf"] = b("\n".join(cfg) + "\n")
        te = [f for f in files if f.endswith(".te")][0]
        lines = []
        for _ in range(s.rng_int(1, 8)):
            n = s.pick(names)
            lines.append(s.pick(["%s(`/x', foo_t)", "%s", "%s(", "%s()", "/usr/%s", "%s --", "/x gen_context(%s:object_r:foo_t,s0)",
                                 "/x %s:%s:%s", "%s system_u:object_r:x_t"]).replace("%s", n))
        files[te[:-3] + ".fc"] = b("\n".join(lines) + s.pick(["\n", ""]))
        if s.chance(60):
            files[te] += b("".join("%s\n" % s.pick(names) for _ in range(2)))
        if s.chance(60):
            files["pol/modules.conf"] = b("".join("%s = %s\n" % (s.pick(names), s.pick(["base", "module", s.pick(names)])) for _ in range(4)))
        if s.chance(40):
            files["pol/flask/access_vectors"] = b("".join("class %s { %s %s }\n" % (s.pick(names), s.pick(names), s.pick(names))
                                                          for _ in range(4)))
        if s.chance(40):
            files["pol/support/obj_perm_sets.spt"] = b("".join("define(`%s%s',`{ read %s }')\n" % (
                s.pick(names), s.pick(["_perms", "_file_perms", ""]), s.pick(names)) for _ in range(4)))

    @staticmethod
    def struct(s, kind):
        n = s.pick([2, 20, 300, 4000])
        k = s.below(6)
        if kind == "modules.conf":
            t = ["a" * n * 20 + " = base", "a" + " " * n * 20 + "=", "=" * n, "a = base\n" * n, "# x" * n, "a = " + "b" * n * 20][k]
        elif kind == "access_vectors":
            t = ["class a { " + "p " * n + "}", "class a { p }\n" * n, "class " + "a" * n * 20 + " { p }", "common f { " * n,
                 "class a inherits b\n" * n, "# c\n" * n + "class a { p }"][k]
        elif kind == "spt":
            m = min(n, 500)
            if s.chance(30):
                # references in loops which do not lead back to the first macro
                m = s.rng_int(2, 7)
                nm = lambda i: "m%d%s" % (i, ["_file_perms", "_perms", "_dir_perms"][i % 3])
                return b("".join("define(`%s',`{ %s }')\n" % (nm(i), " ".join(s.shuffle(
                    s.sample(["read", "write", "getattr"], s.below(3)) + [nm(s.below(m)) for _ in range(s.below(3))]) or ["read"])) for i in range(m)))
            t = ["".join("define(`m%d_file_perms',`{ m%d_file_perms read }')\n" % (i, i + 1) for i in range(m)),
                 "".join("define(`m%d_file_perms',`{ m%d_file_perms read }')\n" % (i, (i + 1) % m) for i in range(m)),
                 "define(`x_file_perms',`{ " + "read " * n + "}')\n", "define(`x_file_perms',`{ read }')\n" * n,
                 "define(`" + "x" * n * 20 + "_file_perms',`{ read write }')\n",
                 "define(`x_file_perms',`" + "~ " * n + "{ read }')\n"][k]
        else:
            t = ["disable = { " + "\"W-001\", " * n + "\"S-001\" }\n", "severity = " + "x" * n * 20 + "\n", "disable = {" * n,
                 "severity = style\n" * n, "/*" * n, "assume_users = { \"" + "u" * n * 20 + "\" }\n"][k]
        return b(t)[:200000]



# ---------------------------------------------------------------- C03

class Wide:
    """statements of every grammar production, with the notations the model based checks do not need"""

    def __init__(self, s, names):
        self.s = s
        self.names = names

    def word(self):
        """any word the lexer takes for a name"""
        s = self.s
        while 1:
            w = s.pick("abtxzDFZ$/") + "".join(s.pick("abtzDF09_$*/-___") for _ in range(s.below(9)))
            if not re.match(r"dnl([^a-zA-Z0-9_]|$)", w) and w not in KEYWORDS and "//" not in w:
                return w

    def addr(self):
        s = self.s
        if s.chance(40):
            ip = lambda: ".".join(str(s.pick([0, 1, 10, 99, 127, 255])) for _ in range(4))
            return [ip(), ip()]
        h = lambda: "".join(s.pick("0123456789abcdefABCDEF") for _ in range(s.rng_int(1, 4)))

        def ip6():
            k = s.below(4)
            if k == 0:
                return ":".join(h() for _ in range(8))
            a = [h() for _ in range(s.below(4))]
            z = [h() for _ in range(s.below(4))]
            return ":".join(a) + "::" + ":".join(z)
        return [ip6() + " " + ip6()]

    def nm(self):
        s = self.s
        if s.chance(8):
            return self.word()
        return s.pick(self.names) if s.chance(60) else s.pick(["x_t", "$1", "$1_t", "a-b", "foo/bar", "x$1y", "$*", "dnlx", "type_x", "modules",
                                                              "allowed", "ifdefx", "/x", "Foo_T", "t2", s.pick("abcdlps")])

    def item(self):
        s = self.s
        k = s.below(10)
        if k == 0:
            return ["-" + self.nm()]
        if k == 1:
            return ["-", self.nm()] if s.chance(50) else ['"x.y-z:~$1"']
        return [self.nm()]

    def sl(self):
        s = self.s
        k = s.below(12)
        if k < 5:
            return self.item()
        if k < 8:
            return ["{"] + [x for _ in s.many(1, 5) for x in self.item()] + ["}"]
        if k < 10:
            return ["~"] + self.sl()
        if k == 10:
            return ["*"]
        return ["self"]

    def xp(self):
        s = self.s
        it = lambda: s.pick(["0x10", "5", "0x10-0x20", "mac", "-", "12-14"])
        k = s.below(6)
        if k < 2:
            return [it()]
        if k == 2:
            return ["~"] + self.xp()
        return ["{"] + [it() for _ in s.many(1, 5)] + ["}"]

    def comma(self):
        out = [self.nm()]
        for _ in self.s.many(0, 3, 40):
            out += [",", self.nm()]
        return out

    def lvl(self):
        return self.s.pick(["s0", "s0:c0", "s0:c0.c5", "mcs_systemhigh", "s0 : c1 . c3", "$1"])

    def rng(self):
        s = self.s
        return s.pick(["%s", "%s", "%s - " + self.lvl().replace("%", ""), "%s - " + self.lvl()]) % self.lvl()

    def raw_cx(self):
        s = self.s
        c = s.pick(["%s:%s:%s", "%s:%s:%s", "%s : %s : %s"]) % (s.pick(["system_u", "root_u"]), s.pick(["object_r", "x_r"]), s.pick(self.names))
        return c + (s.pick([":", " : "]) + self.rng() if s.chance(25) else "")

    def cx(self):
        s = self.s
        k = s.below(6)
        if k < 2:
            return [self.raw_cx()]
        t = ["gen_context", "(", self.raw_cx()]
        if k > 2:
            t += [",", self.rng()]
        if k == 5:
            t += [","] + ([self.rng()] if s.chance(60) else [])
        return t + [")"]

    def arg(self):
        s = self.s
        k = s.below(9)
        if k < 3:
            return [self.nm()]
        if k == 3:
            return self.xp()
        if k == 4:
            return s.pick([['"q.x"'], ['""']])
        if k == 5:
            return ["`", "'"]
        if k == 6:
            return ["`"] + [x for _ in s.many(1, 4) for x in self.item()] + ["'"]
        if k == 7:
            return ["{"] + [self.nm() for _ in s.many(1, 3)] + ["}"]
        return [self.nm(), self.nm()]

    def prose(self):
        s = self.s
        el = ["word", "a-b", "(", ")", "{", "}", ",", ".", "word :", ";", "-", "$0", "$1", "deprecated", "/x/y"]
        t = [s.pick(el) for _ in s.many(1, 8, 80)]
        if s.chance(20):
            t += ["`", "word", "'"]
        return t

    def stmt(self):
        s = self.s
        k = s.below(31)
        av = s.pick(["allow", "dontaudit", "auditallow", "neverallow"])
        if k < 3:
            return [av] + self.sl() + self.sl() + [":"] + self.sl() + self.sl() + [";"]
        if k == 3:
            return [av + "xperm"] + self.sl() + self.sl() + [":"] + self.sl() + ["ioctl"] + self.xp() + [";"]
        if k == 4:
            return ["allow"] + self.sl() + self.sl() + [";"]
        if k == 5:
            return ["role", self.nm(), "types"] + self.sl() + [";"]
        if k == 6:
            return ["type_transition"] + self.sl() + self.sl() + [":"] + self.sl() + [self.nm()] + s.pick([[], ['"a.b"'], ['"$1"']]) + [";"]
        if k == 7:
            return [s.pick(["type_member", "type_change"])] + self.sl() + self.sl() + [":"] + self.sl() + [self.nm(), ";"]
        if k == 8:
            return ["range_transition"] + self.sl() + self.sl() + [":"] + self.sl() + [self.rng(), ";"]
        if k == 9:
            return ["role_transition"] + self.sl() + self.sl() + ([":"] + self.sl() if s.chance(40) else []) + [self.nm(), ";"]
        if k == 10:
            return ["typeattribute", self.nm()] + self.comma() + [";"]
        if k == 11:
            return ["roleattribute", self.nm()] + self.comma() + [";"]
        if k == 12:
            return ["typealias", self.nm(), "alias"] + self.sl() + [";"]
        if k == 13:
            return ["type", self.nm()] + (["alias"] + self.sl() if s.chance(40) else []) + ([","] + self.comma() if s.chance(40) else []) + [";"]
        if k == 14:
            return [s.pick(["attribute", "role", "attribute_role", "bool"]), self.nm(), ";"]
        if k == 15:
            return ["class", self.nm()] + self.sl() + [";"]
        if k == 16:
            return s.pick([["gen_bool", "(", self.nm(), ",", "false", ")"], ["gen_tunable", "(", "`", self.nm(), "'", ",", "true", ")"],
                           ["gen_tunable", "(", self.nm(), ",", "false", ")"]])
        if k == 17:
            return ["permissive", self.nm(), ";"]
        if k == 18:
            return ["typebounds", self.nm(), self.nm(), ";"]
        if k == 19:
            return ["genfscon", s.pick(["proc", "9p", "ext4"]), s.pick(["/", "/foo/bar-baz", "/x_y"])] + \
                s.pick([[], ["-" + s.pick("-dlcbsp") + s.pick(" \t")]]) + self.cx()
        if k == 20:
            return ["sid", s.pick(["kernel", "init"])] + self.cx()
        if k == 21:
            return ["portcon", s.pick(["tcp", "udp"])] + s.pick([["80"], ["1000-1001"], ["1000", "-", "2000"]]) + self.cx()
        if k == 22:
            return ["netifcon", "eth0"] + self.cx() + self.cx()
        if k == 23:
            return ["nodecon"] + self.addr() + self.cx()
        if k == 24:
            return [s.pick(["fs_use_trans", "fs_use_xattr", "fs_use_task"]), s.pick(["ext4", "pipefs"])] + self.cx() + [";"]
        if k == 25:
            return ["gen_user", "("] + s.pick([["root", ","], [","]]) + s.pick([["user", ","], [","]]) + \
                [s.pick(["a_r", "b_r"]) for _ in s.many(1, 3)] + [",", self.rng(), ",", self.rng()] + \
                ([",", self.rng()] if s.chance(50) else []) + [")"]
        if k == 26:
            return ["refpolicywarn", "(", "`"] + self.prose() + ["'", ")"]
        if k == 27:
            return ["define", "("] + s.pick([["`", "mac", "'"], ["mac"]]) + \
                s.pick([[], [","], [",", "word"], [",", "`"] + self.prose() + ["'"]]) + [")"]
        if k == 28:
            return s.pick([["optional_policy", "(", "`", "'", ")"], ["ifdef", "(", "`", "x", "'", ",", ")"],
                           ["ifdef", "(", "`", "x", "'", ",", "`", "'", ",", "word", ")"],
                           ["ifndef", "(", "`", "x", "'", ",", "`", self.nm(), "'", ")"],
                           ["ifelse", "(", "`", self.nm(), "'", ",", "`", "'", ",", "`", self.nm(), "(", ")", "'", ")"]])
        if k == 29:
            return ["require", "{"] + self.req() + ["}"] if s.chance(50) else \
                s.pick([["gen_require", "("] + self.req() + [")"], ["gen_require", "(", "`"] + self.req() + ["'", ")"]])
        a = []
        for i in s.many(0, 4):
            a += ([","] if i else []) + self.arg()
        return [s.pick(["f", "dev_read", "x_template", "$1_do"]), "("] + a + [")"]

    def req(self):
        s = self.s
        o = []
        for _ in s.many(1, 4):
            k = s.below(7)
            if k == 0:
                o += ["class", self.nm()] + self.sl() + [";"]
            elif k == 1:
                q = s.chance(50)
                o += [s.pick(["ifdef", "ifndef"]), "(", "`", "x", "'", ","] + (["`"] if q else []) + ["type", self.nm(), ";"] + \
                    (["'"] if q else []) + [")"]
            else:
                o += [s.pick(["type", "attribute", "role", "attribute_role", "bool"])] + self.comma() + [";"]
        return o


LEAF = {"decl", "typealias", "typeattr", "roleattr", "av", "xav", "tt", "rt", "ra", "rtypes", "call", "permissive", "semi", "stray", "reqdecl",
        "raw"}
NEVER = ["@", "&&", "==", "!=", "=", "?", "[", "<", "%", "!", "^", "||"]      # no statement can continue with one of these
BODY = {"interface", "template", "optional", "optional_else", "userdebug", "boolean", "m4arg"}


class C03(Property):
    id = "C03"
    flavours = ("plain",)
    cases = {"quick": 36000, "thorough": 500000}
    rule = ("half of the cases run selint on generated policies with statements of every grammar production in random layout and expect "
            "that no file is rejected; the other half make one syntactic slip in one .te or .if file (insert, delete, swap or misspell "
            "a token, delete block delimiters, cut the file off inside a statement) and expect the file to be rejected there and nothing else to be reported; "
            "an accepting case is non-trivial if the files hold at least 5 statements, a rejecting one always")
    assumptions = ["the dialect has no comments inside statements, no statement-free .te files and no names made of keywords",
                   "slips whose effect on the rest of the file is not bounded (e.g. a deleted closing quote and parenthesis) are only located between the slip and the end of the file"]

    def case(self, s, ctx):
        d = dict(RICH, nmods=(1, 3), fc=30, exc=s.pick([0, 10]), badfmt_fc=0, req_ifdef=15, fc_macros=0, exc_bool=True)
        d["kinds"] = kinds(raw=6, define=2, ifelse=2, boolean=4, tunable=4, ifdef=4, optional=6, req=6, userdebug=2, xav=4, tt=5, decl=4)
        pr = gen.Gen(s, gen.Prof(**d)).project()
        wide = 0
        if s.chance(70):
            wide = self.widen(s, pr)
        if s.chance(50):
            return self.accept(s, ctx, pr, wide)
        return self.reject(s, ctx, pr)

    @staticmethod
    def bodies(pf):
        """statement lists of a file which may hold any statement"""
        out = []
        if pf.kind == "te":
            out.append((pf.nodes, 1))

        def go(ns):
            for n in ns:
                if n.k in BODY and not (n.k == "m4arg" and n.a.get("word") is not None):
                    out.append((n.ch, 0))
                if n.k not in ("genreq", "require"):
                    go(n.ch)
        go(pf.nodes)
        return out

    def widen(self, s, pr):
        cnt = 0
        for pf in pr.files:
            if pf.kind == "fc":
                continue
            bs = self.bodies(pf)
            names = ["%s_t" % pf.mod, "x_t", "foo_exec_t", "bar"]
            w = Wide(s, names)
            for _ in s.many(0, 8, 75):
                if not bs:
                    break
                l, lo = s.pick(bs)
                i = lo + s.below(len(l) - lo + 1)
                n = N("raw", toks=w.stmt())
                if s.chance(6):
                    n.exc = s.pick(["#selint-disable:W-001", "#selint-disable: C-001, S-003"])
                # an else branch stays with its optional
                while i < len(l) and l[i].k == "optional_else":
                    i += 1
                # the then and else parts of a boolean block are told apart by a count
                if any(x.k == "boolean" and x.ch is l for q, _ in bs for x in q):
                    own = [x for q, _ in bs for x in q if x.k == "boolean" and x.ch is l][0]
                    if i <= own.a["nthen"]:
                        own.a["nthen"] += 1
                l.insert(i, n)
                cnt += 1
        return cnt

    def accept(self, s, ctx, pr, wide):
        ctx.label("accept")
        files = render(pr, s)
        r = ctx.run(files, argv(pr, "-r", "pol"))
        outs = parse(r)
        bad = fatal(outs)
        if r.rc != 0 or bad or b"Failed to parse" in r.out:
            raise Fail("a file in the supported dialect is rejected (exit %s): %s" % (
                r.rc, bad[0].raw if bad else r.out[-300:].decode("utf-8", "replace")), "reject")
        n = sum(1 for f in pr.files if f.kind != "fc" for _ in pol.walk(f.nodes))
        ctx.label("statements", n)
        ctx.label("statements of the wide generator", wide)
        if n >= 5:
            ctx.nontrivial = tuple((f.path, files[f.path]) for f in pr.files)
            ctx.sample = ["accepted %s: %r" % (f.path, files[f.path][:300]) for f in pr.files if f.kind != "fc"][:2]

    # ---- rejection
    def reject(self, s, ctx, pr):
        pf = s.pick([f for f in pr.files if f.kind != "fc"])
        leaves, blocks = [], []

        def go(ns, top, ctxkind):
            for i, n in enumerate(ns):
                if n.k in LEAF and n.k != "stray" and not (n.k == "raw" and n.a["toks"][0].split("(")[0] in ("refpolicywarn", "define")):
                    leaves.append((n, ns, i, ctxkind))
                if n.k in ("optional", "interface", "template", "userdebug", "boolean", "require", "genreq"):
                    if not (n.k == "optional" and n.a.get("els") is not None):
                        blocks.append(n)
                go(n.ch, False, "req" if n.k in ("genreq", "require") else n.k)
        go(pf.nodes, True, pf.kind)
        if pf.kind == "te" and len(pf.nodes) < 2:
            pf.nodes.append(N("semi"))
        opts = [(6 if leaves else 0, "token"), (3 if leaves else 0, "start"), (2 if leaves else 0, "cut"), (3 if blocks else 0, "block"),
                (2 if any(n.k in ("av", "xav", "tt", "rt") for n, _, _, _ in leaves) else 0, "misspell"), (1, "top"), (1, "kind")]
        kind = s.wpick(opts)
        ctx.label("slip " + kind)
        what, mark = getattr(self, "m_" + kind)(s, pf, leaves, blocks)
        lay = layout(s)
        # keep the file's text with the slip's positions
        r = pol.Renderer(s, Layout(noise=lay.noise, crlf=False, tabs=lay.tabs, final_nl=True))
        link(pf.nodes)
        text = r.render(pf.nodes)
        lo, hi = mark(text)
        if kind == "cut":
            text = text[:self.cutoff]
        nl = text.count("\n") + 1
        hi = min(hi, nl)
        if not lay.final_nl:
            text = text.rstrip("\n")
        if lay.crlf:
            text = text.replace("\n", "\r\n")
        files = {}
        for f in pr.files:
            if f is not pf:
                link(f.nodes)
                files[f.path] = pol.render_file(f, s, layout(s))
        files[pf.path] = text
        files.update(support(pr, s))
        run = ctx.run(files, argv(pr, "-r", "pol"))
        outs = parse(run)
        desc = "%s in %s, lines %d to %d" % (what, pf.path, lo, hi)
        if run.rc != 70:
            raise Fail("exit status %s for a file with a syntax error (%s)" % (run.rc, desc), "status")
        if b"Failed to parse files" not in run.out:
            raise Fail("no parse failure announced (%s)" % desc, "announce")
        f1 = [o for o in outs if o.id == "F-001"]
        if not f1:
            raise Fail("no F-001 finding for a syntax error (%s)" % desc, "nofatal")
        other = [o for o in outs if o.id != "F-001"]
        if other:
            raise Fail("findings besides the syntax error (%s): %s" % (desc, other[0].raw), "others")
        for o in f1:
            if o.file != pf.base:
                raise Fail("the syntax error is reported in another file (%s): %s" % (desc, o.raw), "file")
            if not 1 <= o.line <= hi:
                raise Fail("the syntax error is reported elsewhere (%s): %s" % (desc, o.raw), "line")
        # the statement is named as well, as one of the (possibly several) lines around it
        if f1[0].line < lo:
            raise Fail("the syntax error is reported elsewhere (%s): %s" % (desc, f1[0].raw), "line")
        # (the end of the file is not among the lines selint keeps for quoting)
        if kind != "kind" and b"end of file" not in run.out and (text.endswith("\n") or hi <= text.count("\n")):
            self.quoted(run, text, desc)
        ctx.nontrivial = (pf.path, text, lo, hi)
        ls = text.split("\n")
        ctx.sample = [desc, "%r" % "\n".join(ls[max(0, lo - 2):hi + 1])[:300]] + [o.raw for o in f1]

    @staticmethod
    def quoted(run, text, desc):
        """the lines quoted below the findings are the file's"""
        ls = text.replace("\r", "").split("\n")
        for l in run.out.decode("utf-8", "replace").split("\n"):
            m = re.match(r"^ *(\d+) \|(.*)$", l)
            if not m or m.group(2).strip() == "...  [truncated]":
                continue
            no = int(m.group(1))
            if no == len(ls) + 1:
                want = ""
            elif no > len(ls):
                raise Fail("line %d is quoted, the file has %d (%s)" % (no, len(ls), desc), "quote")
            else:
                want = ls[no - 1]
            want = want.rstrip().replace("\t", "    ")
            if want.isascii() and m.group(2).strip() != want.strip():
                raise Fail("line %d is quoted as %r instead of %r (%s)" % (no, m.group(2), want, desc), "quote")

    @staticmethod
    def after(text, off):
        """line of the next token at or after the offset (comments count as tokens)"""
        pos = off
        while True:
            m = re.compile(r"[ \t\n\r]*").match(text, pos)
            pos = m.end()
            if text.startswith("dnl ", pos):
                e = text.find("\n", pos)
                if e < 0:
                    pos = len(text)
                    break
                pos = e
                continue
            break
        return text.count("\n", 0, pos) + 1

    @staticmethod
    def toks(n):
        return pol.Renderer(None, Layout(noise=0)).stmt_tokens(n)

    def swap_in(self, n, ns, i, toks, slip):
        r = N("raw", toks=toks, slip=slip)
        r.exc = n.exc if slip < len(toks) else None
        ns[i] = r

        def mark(text):
            tl = r.a["tl"]
            return r.line, (tl[slip] if slip < len(tl) else self.after(text, r.a["off"]))
        return mark

    def m_token(self, s, pf, leaves, blocks):
        n, ns, i, ck = s.pick(leaves)
        t = self.toks(n)
        k = n.k
        ops = ["insert", "insert"]
        simple = {"av", "xav", "tt", "rt", "ra", "rtypes", "typeattr", "roleattr", "permissive", "typealias", "reqdecl"}
        if k in simple or (k == "decl" and t[-1] == ";"):
            ops += ["nosemi", "swapsemi", "punct"]
        if k in ("av", "xav", "tt"):
            ops += ["nocolon", "noopen", "noclose", "swapcolon"]
        if k == "av" and n.a["fl"] != "allow":
            ops.append("incomplete")
        if k == "call":
            ops += ["semi", "semi", "noparen"]
        op = s.pick(ops)
        if op in ("noopen", "noclose"):
            at = [j for j, x in enumerate(t) if x == ("{" if op == "noopen" else "}")]
            if op == "noopen":
                # a braced list of one item stays valid up to its closing brace, longer ones up to some item
                pass
            if not at:
                op = "insert"
            else:
                j = s.pick(at)
                if op == "noopen":
                    e = t.index("}", j)
                    return "deleted %r" % t[j], self.swap_in(n, ns, i, t[:j] + t[j + 1:], e - 1)
                # without the closing brace everything up to the next : or ; is in the set
                u = t[:j] + t[j + 1:]
                e = next(q for q in range(j, len(u)) if u[q] in (":", ";", "{", "~", "*"))
                return "deleted %r" % t[j], self.swap_in(n, ns, i, u, e)
        nxt = [q for q in ns[i + 1:] if not q.hid]
        if op == "nosemi" and not (nxt and nxt[0].k == "semi"):
            return "deleted ;", self.swap_in(n, ns, i, t[:-1], len(t))
        if op == "swapsemi":
            u = t[:-2] + [";", t[-2]]
            if not self.swappable(k, t):
                return self.ins(s, n, ns, i, t, NEVER)
            return "swapped ; and %r" % t[-2], self.swap_in(n, ns, i, u, len(u) - 1)
        if op == "punct":
            bad = {"typeattr": [":", ")", "{", "}", "`"], "roleattr": [":", ")", "{", "}", "`"], "permissive": [":", ")", ",", "}", "'"],
                   "decl": [":", ")", "(", "'"], "reqdecl": [":", ")", "(", "'"], "typealias": [":", ")", ",", "'", "("],
                   "rtypes": [":", ")", ",", "'"], "ra": [")", ",", "'", "("]}.get(k, [")", ",", "'", "`", "("])
            if k == "tt" and n.a["fl"] == "range_transition":
                bad = [")", "'", "`", "("]
            return self.ins(s, n, ns, i, t, bad)
        if op == "nocolon":
            j = t.index(":")
            u = t[:j] + t[j + 1:]
            return "deleted :", self.swap_in(n, ns, i, u, j)
        if op == "swapcolon":
            j = t.index(":")
            u = t[:j] + [t[j + 1], t[j]] + t[j + 2:]
            return "swapped : and %r" % t[j + 1], self.swap_in(n, ns, i, u, j)
        if op == "incomplete":
            j = t.index(":")
            return "deleted classes and permissions", self.swap_in(n, ns, i, t[:j] + [";"], j)
        if op == "semi":
            j = s.rng_int(2, len(t) - 1)
            return "inserted ;", self.swap_in(n, ns, i, t[:j] + [";"] + t[j:], j)
        if op == "noparen":
            # (a bare word after it would go on as an argument)
            if s.chance(50) and not (nxt and nxt[0].k == "stray"):
                return "deleted )", self.swap_in(n, ns, i, t[:-1], len(t) + 10 ** 6)
            if not n.a["args"]:
                return "deleted (", self.swap_in(n, ns, i, [t[0], t[2]], 1)
            return "deleted (", self.swap_in(n, ns, i, t[:1] + t[2:], len(t) - 2)
        return self.ins(s, n, ns, i, t, NEVER)

    @staticmethod
    def swappable(k, t):
        if t[-2] == "}" or k in ("permissive", "rt", "rtypes", "ra", "typealias"):
            return True
        return k in ("av", "xav") and not (t[-3] == "~")

    def ins(self, s, n, ns, i, t, bad):
        x = s.pick(bad)
        j = s.rng_int(1, len(t) - 1) if len(t) > 1 else 1
        return "inserted %r" % x, self.swap_in(n, ns, i, t[:j] + [x] + t[j:], j)

    def m_misspell(self, s, pf, leaves, blocks):
        n, ns, i, ck = s.pick([x for x in leaves if x[0].k in ("av", "xav", "tt", "rt") and x[3] != "req"])
        t = self.toks(n)
        if t[-1] == ";" and ":" in t:
            w = t[0]
            k = s.below(4)
            m = [w[1:] + w[0], w[:-1] + "x", w + "s", w[0] + w[2:]][k]
            return "misspelt %s" % w, self.swap_in(n, ns, i, [m] + t[1:], t.index(":"))
        return self.ins(s, n, ns, i, t, NEVER)

    def m_start(self, s, pf, leaves, blocks):
        n, ns, i, ck = s.pick(leaves)
        x = s.pick(NEVER + [":", ",", ")", ".", "~", "*", "-", "{", "1.0", "12", '"x"', "alias", "types", "else", "inherits", "common"])
        if ck in ("req", "reqifdef") and x == ")":
            x = ","
        prev = [q for q in ns[:i] if not q.hid]
        if prev and prev[-1].k in ("boolean", "stray", "raw"):      # which may go on
            x = s.pick(NEVER)
        r = N("raw", toks=[x], slip=0)
        ns.insert(i, r)
        self.fixthen(pf, ns, i)

        def mark(text):
            return r.line, r.line
        return "inserted %r before a statement" % x, mark

    @staticmethod
    def fixthen(pf, ns, i):
        for n in pol.walk(pf.nodes):
            if n.k == "boolean" and n.ch is ns and i <= n.a["nthen"]:
                n.a["nthen"] += 1

    def m_top(self, s, pf, leaves, blocks):
        """something at the top level which may not be there"""
        if pf.kind == "te":
            x = s.pick([["}"], ["'"], ["')"], ["interface", "(", "`", "x_y", "'", ",", "`", "a", "(", "b", ")", "'", ")"], ["policy_module", "(", "x", ",", "1.0", ")"],
                        ["module", "x", "1.0", ";"], ["common", "x", "{", "a", "}"]])
            i = s.rng_int(1, len(pf.nodes))
        else:
            x = s.pick([["}"], ["type", "a_t", ";"], ["allow", "a", "b", ":", "file", "read", ";"], ["f", "(", "a", ")"], ["x"], [";"], ["'"],
                        ["policy_module", "(", "x", ",", "1.0", ")"], ["gen_require", "(", "`", "type", "a", ";", "'", ")"]])
            i = s.rng_int(0, len(pf.nodes))
            if not any(q.k in ("interface", "template") for q in pf.nodes[:i]):
                i = len(pf.nodes)
            if not any(q.k in ("interface", "template") for q in pf.nodes):
                x = ["x"]
        while i < len(pf.nodes) and pf.nodes[i].k == "optional_else":
            i += 1
        r = N("raw", toks=x, slip=0)
        pf.nodes.insert(i, r)

        def mark(text):
            return r.line, max(r.a["tl"])
        return "inserted %s at the top level" % " ".join(x), mark

    def m_kind(self, s, pf, leaves, blocks):
        """a file which holds what belongs into another kind of file"""
        av = ["allow", "a_t", "b_t", ":", "file", "read", ";"]
        if pf.kind == "te":
            x = s.pick([["interface", "(", "`", "x_y", "'", ",", "`"] + av + ["'", ")"], ["template", "(", "`", "x_y", "'", ",", "`"] + av + ["'", ")"],
                        ["interface", "(", "`", "x_y", "'", ",", "`", "'", ")"], ["define", "(", "`", "x_perms", "'", ",", "`", "{", "read", "}", "'", ")"],
                        ["class", "x", "{", "read", "}"], ["common", "x", "{", "read", "}"], ["class", "x", "inherits", "file"],
                        ["type", "x_t", ";"], av])
        else:
            x = s.pick([["policy_module", "(", "x", ",", "1.0", ")"], ["module", "x", "1.0", ";"], ["type", "x_t", ";"], av,
                        ["define", "(", "`", "x_perms", "'", ",", "`", "{", "read", "}", "'", ")"],
                        ["class", "x", "{", "read", "}"], ["common", "x", "{", "read", "}"], ["class", "x", "inherits", "file", "{", "y", "}"]])
        r = N("raw", toks=x, slip=0)
        pf.nodes[:] = [r] + ([N("raw", toks=s.pick([x, ["type", "x_t", ";"], av]))] if s.chance(60) else [])

        def mark(text):
            return r.line, self.after(text, r.a["off"])
        return "file consisting of %s" % " ".join(x), mark

    def m_cut(self, s, pf, leaves, blocks):
        n, ns, i, ck = s.pick(leaves)
        t = self.toks(n)
        lo = 2 if n.k in ("call", "raw") else 1
        if len(t) <= lo or (n.k == "raw" and (len(t) < 3 or t[0] in ("optional_policy", "f", "dev_read", "x_template", "$1_do"))):
            return self.m_start(s, pf, leaves, blocks) if False else self.cut_block(s, pf, n, ns, i, t)
        j = s.rng_int(lo, len(t) - 1)
        return self.cut_at(n, ns, i, t, j)

    def cut_block(self, s, pf, n, ns, i, t):
        # not a statement a prefix of which is never complete: make it one
        return self.cut_at(n, ns, i, ["type", "x_t", ";"], s.rng_int(1, 2))

    def cut_at(self, n, ns, i, t, j):
        r = N("raw", toks=t[:j], slip=j)
        ns[i] = r

        def mark(text):
            self.cutoff = r.a["off"]
            return r.line, text.count("\n", 0, r.a["off"]) + 2
        return "cut off after %s" % " ".join(t[:j])[-60:], mark

    def m_block(self, s, pf, leaves, blocks):
        n = s.pick(blocks)
        k = n.k
        q = k in ("optional", "interface", "template", "userdebug") or (k == "genreq" and n.a.get("q", True))
        if k in ("optional", "interface", "template", "userdebug") and s.chance(30) and n.ch:
            n.a["drop"], n.a["drop_open"] = ["`"], True
            return "deleted opening quote of %s" % k, lambda text: (n.line, self.after(text, n.a["off"]))
        n.a["drop_open"] = False
        if q:
            n.a["drop"] = s.pick([["'"], [")"], ["'", ")"]])
        else:
            n.a["drop"] = [")"] if k == "genreq" else ["}"]
        far = len(n.a["drop"]) == 2 or not q

        def mark(text):
            return n.line, (10 ** 9 if far else self.after(text, n.a["off"]))
        if n.a["drop"] == [")"] and q:
            # the quote stays, the token after it is wrong
            def mark(text):
                p = text.index("'", n.a["off"])
                return n.line, self.after(text, p + 1)
        return "deleted %s of %s" % (" ".join(n.a["drop"]), k), mark


PROPERTIES = [C01(), C02(), C03()]
