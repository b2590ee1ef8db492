"""Inputs that failed before a repair of selint; every one runs first in each check of its property."""
from engine import Fail
import proj

REG = []


def reg(pid, commit, what, files, argv, expect=None, rc=None, err=None, noerr=None, flavour=None, root=None):
    """expect: exact [(file, line, id)] ; rc: exit status ; err: text stderr/stdout must hold ; noerr: must not hold"""
    REG.append(dict(pid=pid, commit=commit, what=what, files=files, argv=argv, expect=expect, rc=rc, err=err,
                    noerr=noerr, flavour=flavour, root=root))


def _fn(r):
    def fn(ctx):
        fl = r["flavour"] or ctx.prop.flavours[0]
        files = r["files"]() if callable(r["files"]) else r["files"]
        run = ctx.run(files, r["argv"], flavour=fl, root=r["root"])
        if r["expect"] is not None:
            got = sorted(o.key() for o in proj.parse(run))
            if got != sorted(r["expect"]):
                raise Fail("findings %r instead of %r (%s)" % (got, sorted(r["expect"]), r["what"]), "regress")
        if r["rc"] is not None and run.rc != r["rc"]:
            raise Fail("exit status %s instead of %s (%s)" % (run.rc, r["rc"], r["what"]), "regress")
        txt = (run.out + run.err).decode("utf-8", "replace")
        for e in [r["err"]] if isinstance(r["err"], str) else r["err"] or []:
            if e not in txt:
                raise Fail("output does not contain %r (%s):\n%s" % (e, r["what"], txt[:800]), "regress")
        if r["noerr"] and r["noerr"] in txt:
            raise Fail("output contains %r (%s)" % (r["noerr"], r["what"]), "regress")
    return fn


def cases(pid):
    out = []
    n = {}
    for r in REG:
        if r["pid"] != pid:
            continue
        n[r["commit"]] = n.get(r["commit"], 0) + 1
        out.append(("%s-%d" % (r["commit"], n[r["commit"]]), _fn(r)))
    return out


def only(*ids):
    a = ["-E"]
    for i in ids:
        a += ["-e", i]
    return a


CFG = "severity = \"convention\"\n"
TE = "policy_module(m, 1.0)\n"
IF = "## <summary>x</summary>\n"


def iface(name, body, kind="interface"):
    return "##\t<summary>\n##\ts\n##\t</summary>\n##\t<param name=\"a\">\n##\t<summary>\n##\tx\n##\t</summary>\n##\t</param>\n#\n" \
           "%s(`%s',`\n%s\n')\n" % (kind, name, body)


# de31263: nested template calls without arguments or with non-positional ones
_T1 = IF + iface("t_inner", "\ttype $1_inner_t;", "template") + iface("t_outer", "\tt_inner($*)\n\ttype $1_outer_t;", "template") \
    + iface("t_none", "\tt_inner()", "template")
reg("C01", "de31263", "a template handing on $* crashed", {"m.if": _T1, "m.te": TE + "t_outer(foo)\n"}, ["m.te", "m.if"])
reg("C01", "de31263", "a template calling another one without arguments crashed", {"m.if": _T1, "m.te": TE + "t_none(foo)\n"}, ["m.te", "m.if"])
# 6784f25
reg("C14", "6784f25", "gen_context with a short category argument was over-read",
    {"m.fc": "/a/b\t--\tgen_context(system_u:object_r:m_t,s0:c0.c1023,c0)\n", "m.te": TE + "type m_t;\n"},
    only("E-003", "E-002", "E-004", "E-005") + ["m.fc", "m.te"], expect=[])
# 51e4d4a
reg("C14", "51e4d4a", "trailing blanks and CRLF became part of raw contexts",
    {"m.fc": "/a/b\t--\tsystem_u:object_r:m_t \n/a/c\t--\tsystem_u:object_r:m_t\r\n\r\n/a/d\t<<none>>", "m.te": TE + "type m_t;\n"},
    only("E-002", "E-003", "E-004", "E-005") + ["m.fc", "m.te"], expect=[])
reg("C04", "51e4d4a", "blank CRLF lines were malformed fc entries", {"m.fc": "\r\n/a/d\t--\t<<none>>\r\n"}, only("E-002") + ["m.fc"], expect=[])
# a4b2bf4
reg("C02", "a4b2bf4", "modules.conf entry without trailing whitespace was over-read",
    {"modules.conf": "m = base\nn = module", "m.te": TE, "m.if": IF}, ["-s", "m.te", "m.if", "modules.conf"])
# b7f2d1a
reg("C02", "b7f2d1a", "a permission macro containing itself exhausted the stack",
    {"obj_perm_sets.spt": "define(`a_perms',`{ getattr b_perms }')\ndefine(`b_perms',`{ a_perms read }')\n",
     "m.te": TE + "type m_t;\nallow m_t m_t:file a_perms;\nallow m_t m_t:file { read write b_perms };\n"},
    ["-s", "m.te", "obj_perm_sets.spt"])
# 47bc279
reg("C01", "47bc279", "a common definition in a te file crashed C-001", {"m.te": "common file { read }\n"}, ["m.te"], rc=70)
# 495d68c
_REQ = IF + iface("m_x", "\tgen_require(`\n\t\tifdef(`foo',`\n\t\t\ttype m_t;\n\t\t')\n\t\ttype n_t;\n\t')\n\n\tallow $1 m_t:file read;")
reg("C18", "495d68c", "ifdef in a require block was an internal error of C-006", {"m.if": _REQ}, only("C-006") + ["m.if"], expect=[])
reg("C12", "495d68c", "names required inside of an ifdef were not taken as required",
    {"m.if": _REQ, "m.te": TE + "type m_t;\ntype n_t;\n"}, only("W-002") + ["m.if", "m.te"], expect=[])
reg("C11", "495d68c", "names required in an ifdef of a te file were not taken as required",
    {"m.te": TE + "gen_require(`\n\tifdef(`foo',`\n\t\ttype n_t;\n\t')\n')\nallow n_t n_t:file read;\n", "n.te": "policy_module(n, 1.0)\ntype n_t;\n"},
    only("W-001") + ["m.te", "n.te"], expect=[])
# 4881ec9
reg("C06", "4881ec9", "disable comment followed by blanks was ignored",
    {"m.te": TE + "gen_require(` #selint-disable: W-005 \n\ttype a_t;\n')\nallow a_t b_t:file read; #selint-disable:W-001, S-001\t\nallow b_t a_t:file read;\n",
     "n.te": "policy_module(n, 1.0)\ntype a_t;\ntype b_t;\n"}, only("W-001") + ["m.te", "n.te"], expect=[("m.te", 6, "W-001")])
reg("C04", "4881ec9", "disable comments in CRLF files were ignored",
    {"m.te": "policy_module(m, 1.0)\r\nallow b_t b_t:file read; #selint-disable:W-001\r\n", "n.te": "policy_module(n, 1.0)\ntype b_t;\n"},
    only("W-001") + ["m.te", "n.te"], expect=[])
# c9b06f3
_TT = TE + "type used_t;\nallow used_t self:file read;\n"
reg("C06", "c9b06f3", "a disable comment on a require line with several names covered the last one only",
    {"m.if": IF + iface("m_x", "\tgen_require(`\n\t\ttype a_t, b_t; #selint-disable:W-003\n\t\ttype c_t;\n\t')\n\n\tallow $1 self:file read;"),
     "n.te": TE + "type a_t;\ntype b_t;\ntype c_t;\n"}, only("W-003") + ["m.if", "n.te"], expect=[("m.if", 14, "W-003")])
reg("C06", "c9b06f3", "a disable comment on a genfscon covered the statement before",
    {"m.te": TE + "allow b_t b_t:file read;\ngenfscon proc / gen_context(system_u:object_r:b_t,s0) #selint-disable:W-001\n",
     "n.te": "policy_module(n, 1.0)\ntype b_t;\n"}, only("W-001") + ["m.te", "n.te"], expect=[("m.te", 2, "W-001")])
# e6dad81
reg("C12", "e6dad81", "W-002 on the alias of a declared type",
    {"m.if": IF + iface("m_x", "\ttype $1_t alias { b_t };", "template"), "m.te": TE + "type a_t alias b_t;\n", "n.te": "policy_module(n, 1.0)\ntype b_t;\n"},
    only("W-002") + ["m.if", "m.te", "n.te"], expect=[])
# 2c7a06f
reg("C04", "2c7a06f", "a block was reported on a later line than its first",
    {"m.te": TE + "type a_t;\nrequire\n{\n\ttype b_t;\n}\n", "n.te": "policy_module(n, 1.0)\ntype b_t;\n"}, only("S-001") + ["m.te", "n.te"],
    expect=[("m.te", 3, "S-001")])
# 8c9ec91
reg("C06", "8c9ec91", "a disable comment on the module statement was a syntax error",
    {"m.te": "policy_module(m, 1.0) #selint-disable:C-001\ntype a_t;\n"}, ["m.te"], rc=0, noerr="F-001")
# 94f116e
reg("C10", "94f116e", "a directory with the name of a policy file aborted the scan",
    {"d/x.te/m.te": TE + "allow a_t self:file bogus;\n", "d/y.if/y.if": IF, "d/z.fc/z.fc": "/x\n"}, only("E-002", "C-004") + ["-r", "d"],
    expect=[("z.fc", 1, "E-002")], rc=0)
reg("C01", "94f116e", "directories with the names of support files aborted the scan",
    {"d/modules.conf/m.te": TE + "type a_t;\n", "d/access_vectors": ("dir",), "d/obj_perm_sets.spt/q": ""}, ["-s", "-r", "d"], rc=0)
# 623541e
reg("C01", "623541e", "a template argument substituted twice overflowed the buffer",
    {"m.if": IF + iface("t_x", "\ttype $1_$1_$1_$1_t;", "template"), "m.te": TE + "t_x(%s)\n" % ("a" * 60)}, ["m.te", "m.if"])
reg("C13", "623541e", "a template argument substituted twice overflowed the buffer",
    {"m.if": IF + iface("t_x", "\ttype $1_$1_$1_$1_t;", "template"), "m.te": TE + "t_x(%s)\n" % ("a" * 60)}, ["m.te", "m.if"], flavour="asan")
# 26e154c
_REC = IF + iface("t_r", "\tt_r($1_x)\n", "template") + iface("t_s", "\tgen_require(`\n\t\ttype c_t;\n\t')\n\tt_r(c_t)\n", "template")
reg("C15", "26e154c", "a call to a recursive template vanished from the tree",
    {"m.if": _REC, "m.te": TE + "type a_t;\nt_r(a b)\n"}, only("W-006", "W-007") + ["m.te", "m.if"],
    expect=[("m.te", 3, "W-007")])
reg("C13", "26e154c", "names used by a call to a recursive template were not seen",
    {"m.if": _REC, "n.te": "policy_module(n, 1.0)\ntype c_t;\n"}, only("W-003") + ["m.if", "n.te"], expect=[])
# 019fce6
_A = iface("a_if", "\tb_tmpl(foo)\n")
_B = IF + iface("b_tmpl", "\ttype $1_t;", "template")
for _n, _o in (("a.if", "b.if"), ("b.if", "a.if")):
    reg("C08", "019fce6", "what a template called by an interface declares depended on the file order",
        {"a.if": IF + _A, "b.if": _B, "c.te": "policy_module(c, 1.0)\nallow foo_t self:file read;\n"}, only("W-001") + [_n, _o, "c.te"],
        expect=[("c.te", 2, "W-001")])
# 29e6c45
reg("C13", "29e6c45", "an argument of several words shifted the arguments after it",
    {"m.if": IF + iface("t_x", "\ttype $2_t;", "template"), "m.te": TE + "t_x({ a b }, c)\n", "n.te": "policy_module(n, 1.0)\nallow c_t self:file read;\n"},
    only("W-001") + ["m.te", "m.if", "n.te"], expect=[("n.te", 2, "W-001")])
# 7285b50
reg("C18", "7285b50", "default require ordering was not applied without configuration",
    {"m.if": IF + iface("m_x", "\tgen_require(`\n\t\ttype a_t;\n\t\tclass file read;\n\t')\n\tallow $1 a_t:file read;")},
    only("C-006") + ["m.if"], expect=[("m.if", 12, "C-006")])
# 214bb6a
reg("C03", "214bb6a", "a comment on a last line without line break was a syntax error", {"m.te": TE + "type a_t;\n# end"}, ["m.te"], rc=0, noerr="F-001")
reg("C03", "214bb6a", "a dnl line at the end without line break was a syntax error", {"m.te": TE + "type a_t;\ndnl end"}, ["m.te"], rc=0, noerr="F-001")
reg("C04", "214bb6a", "a disable comment on a last line without line break was a syntax error",
    {"m.te": TE + "allow b_t b_t:file read; #selint-disable:W-001", "n.te": "policy_module(n, 1.0)\ntype b_t;\n"}, only("W-001") + ["m.te", "n.te"], expect=[])
# ee6c072
reg("C03", "ee6c072", "an identifier starting with dnl swallowed the rest of the line", {"m.te": TE + "type dnl_t;\nallow dnl_t dnl_t:file read;\n"}, ["m.te"], rc=0, noerr="F-001")
# 4d35612
reg("C19", "4d35612", "unordered lines made C-001 fail internally or hid violations",
    {"m.te": TE + "allow a_t self:file read;\nauditallow a_t b_t:file read;\nallow a_t self:dir read;\ntype b_t;\n"}, only("C-001") + ["m.te"], noerr="F-002", expect=[("m.te", 5, "C-001")])
# 2389ee3
_LAY = {"sub/kernel/z.if": IF + iface("z_x", "\tallow $1 self:file read;"), "sub/apps/k.if": IF + iface("k_x", "\tallow $1 self:file read;"),
        "conf": CFG + "ordering_rules = \"refpolicy\"\n", "sub/apps/m.te": TE + "type a_t;\n\nz_x(a_t)\n\nk_x(a_t)\n"}
for _a in (["-r", "sub"], ["-r", "sub/"], ["sub/apps/m.te", "sub/apps/k.if", "sub/kernel/z.if"], ["-r", "./sub/apps", "./sub/kernel/."]):
    reg("C08", "2389ee3", "the layer of a module depended on how its path is written", _LAY, ["-c", "conf"] + only("C-001") + _a, expect=[])
reg("C09", "2389ee3", "modules of context files had no layer", _LAY, ["-c", "conf"] + only("C-001") + ["--context=sub", "sub/apps/m.te"], expect=[])
# 39ba5f6
reg("C20", "39ba5f6", "a directory as configuration file ended with an undocumented status", {"c": ("dir",), "m.te": TE}, ["-c", "c", "m.te"], rc=64)
reg("C02", "39ba5f6", "a directory as configuration file ended with an undocumented status", {"c": ("dir",), "m.te": TE}, ["-c", "c", "m.te"], rc=64)
# ecc4308
reg("C19", "ecc4308", "a type transition was sorted into the section of its target",
    {"m.te": TE + "type a_t;\ntype b_t;\n\nallow a_t self:file read;\ntype_transition a_t b_t:process b_t;\nallow a_t b_t:file read;\n\nallow b_t self:file read;\n"},
    only("C-001") + ["m.te"], expect=[])
# 1cc37a8
reg("C01", "1cc37a8", "several 100000 statements exhausted the stack when freed", lambda: {"m.te": TE + ";\n" * 300000}, only("C-004") + ["m.te"], rc=0)
# 4a289f3
reg("C03", "4a289f3", "10000 leading comment lines were rejected", lambda: {"m.te": "# x\n" * 12000 + TE + "type a_t;\n"}, only("C-004") + ["m.te"], rc=0, noerr="F-001")
# efa888b
reg("C02", "efa888b", "an empty check id was read past its end", {"m.te": TE}, ["-d", "", "-e", "", "m.te"])
# 3b19160
reg("C02", "3b19160", "an empty path argument crashed", {"m.te": TE}, [""], rc=64)
reg("C02", "3b19160", "an empty context path crashed", {"m.te": TE}, ["--context=", "m.te"], rc=64)
# 246e082
reg("C03", "246e082", "an excluded name of one letter was taken for a file type specifier",
    {"m.te": TE + "type b;\ntype a_t;\nallow { a_t -b } { a_t -b }:file read;\ngenfscon proc /x -b system_u:object_r:a_t\n"
                  "genfscon proc /y -- gen_context(system_u:object_r:a_t,s0)\nallow { a_t -b } { a_t -b }:file read;\n"},
    only("C-004") + ["m.te"], rc=0, noerr="F-001")
# 66c5d1d
reg("C19", "66c5d1d", "the lines of foo_ and foo_t were ordered as one section",
    {"a.te": "policy_module(a, 1.0)\ntype a_t;\ntype a_;\ntype b_t;\nallow a_ b_t:file read;\ntunable_policy(`x',`\n\tallow a_ b_t:file read;\n')\nallow a_t self:file read;\nallow a_t a_t:file read;\n"},
    only("C-001") + ["a.te"], expect=[])
# a336971
_MISS = {"a.if": IF + "########################################\n## <summary>\n##\ts\n## </summary>\n## <param name=\"p\">\n##\ts\n## </param>\n#\ntemplate(`a_tmpl',`\n\tgen_require(`\n\t\ttype b_t;\n\t')\n\ttype longer_name_x$2;\n')\n",
         "a.te": TE + "a_tmpl(foo)\n", "b.te": "policy_module(b, 1.0)\ntype c_t;\nallow c_t longer_name_x:file read;\n"}
for _p, _f in (("C13", "asan"), ("C13", "plain"), ("C01", "asan")):
    reg(_p, "a336971", "a substituted name without its argument was not terminated", _MISS, only("W-001") + ["a.if", "a.te", "b.te"],
        expect=[("b.te", 3, "W-001")], flavour=_f)
# 5970da4
reg("C14", "5970da4", "an unknown file type specifier was accepted",
    {"a.te": TE.replace("m,", "a,") + "type a_t;\n", "a.fc": "/x\t-z\tgen_context(system_u:object_r:a_t,s0)\n/y\t-f\t<<none>>\n/z\t-p\t<<none>>\n"},
    only("E-002") + ["a.te", "a.fc"], expect=[("a.fc", 1, "E-002"), ("a.fc", 2, "E-002")])
# be197ca
reg("C14", "be197ca", "levels with categories in raw contexts were refused",
    {"a.te": TE.replace("m,", "a,") + "type a_t;\n", "a.fc": "/x\tsystem_u:object_r:a_t:s0:c0.c1023\n/y\tsystem_u:object_r:a_t:s0:c0-s1:c0,c3\n/z\tsystem_u:object_r:a_t:s0:c0:c1\n"},
    only("E-002") + ["a.te", "a.fc"], expect=[("a.fc", 3, "E-002")])
# 21f8e2a
reg("C24", "21f8e2a", "ids like W-1, which match no check, were not announced", {"a.te": TE.replace("m,", "a,") + "type a_t;\n"},
    ["-d", "W-1", "-d", "C-001x", "a.te"], rc=0, err=["W-1", "C-001x"])
# b7510ae
reg("C15", "b7510ae", "the entries of a list in braces were counted as arguments", {"a.te": TE.replace("m,", "a,") + "type a_t;\nb_do({ a_t x_t y_t }, c d)\n"},
    only("W-007") + ["a.te"], expect=[("a.te", 3, "W-007")], err="Argument no. 2 'c ...'")
