"""Generator of whole policy projects (AST level)."""
from pol import N, PFile

CLASSES = {
    "file": ["append", "create", "execute", "execute_no_trans", "entrypoint", "execmod", "getattr", "ioctl", "link",
             "lock", "map", "mounton", "open", "quotaon", "read", "relabelfrom", "relabelto", "rename", "setattr",
             "unlink", "watch", "write"],
    "dir": ["add_name", "create", "getattr", "ioctl", "lock", "open", "read", "relabelfrom", "relabelto", "remove_name",
            "rename", "reparent", "rmdir", "search", "setattr", "watch", "write"],
    "lnk_file": ["create", "getattr", "read", "rename", "setattr", "unlink", "write"],
    "chr_file": ["append", "getattr", "ioctl", "lock", "open", "read", "write"],
    "blk_file": ["getattr", "ioctl", "open", "read", "write"],
    "sock_file": ["create", "getattr", "open", "unlink", "write"],
    "fifo_file": ["append", "getattr", "lock", "open", "read", "write"],
    "process": ["fork", "getattr", "sigchld", "signal", "signull", "transition"],
    "capability": ["chown", "kill", "setuid", "sys_admin"],
    "tcp_socket": ["accept", "bind", "connect", "create", "listen", "read", "write"],
    "udp_socket": ["bind", "create", "read", "write"],
    "netlink_route_socket": ["bind", "create", "nlmsg_read", "read", "write"],
    "netlink_audit_socket": ["create", "nlmsg_relay"],
    "fd": ["use"],
    "dbus": ["acquire_svc", "send_msg"],
}

# permissions that stand for others when a permission macro is suggested, and those they stand for
IMPLIERS = ["ioctl", "getattr", "read", "lock", "append", "write", "create", "setattr", "map", "unlink", "link", "rename",
            "open", "execute", "relabelfrom", "relabelto", "mounton", "watch", "add_name", "remove_name", "reparent",
            "search", "rmdir", "execute_no_trans", "entrypoint"]
IMPLIED = ["getattr", "getattr", "ioctl", "search", "lock", "append", "link", "rmdir", "read", "map", "unlink", "write",
           "execute", "setattr", "rename", "reparent"]

SPT = [
    ("stat_file_perms", ["getattr"]),
    ("getattr_file_perms", ["getattr"]),
    ("read_inherited_file_perms", ["getattr", "ioctl", "lock", "read"]),
    ("read_file_perms", ["getattr", "ioctl", "lock", "open", "read"]),
    ("mmap_read_inherited_file_perms", ["getattr", "ioctl", "map", "read"]),
    ("mmap_read_file_perms", ["getattr", "ioctl", "map", "open", "read"]),
    ("exec_file_perms", ["execute", "execute_no_trans", "getattr", "ioctl", "map", "open", "read"]),
    ("append_file_perms", ["append", "getattr", "ioctl", "lock", "open"]),
    ("write_file_perms", ["append", "getattr", "ioctl", "lock", "open", "write"]),
    ("rw_inherited_file_perms", ["append", "getattr", "ioctl", "lock", "read", "write"]),
    ("rw_file_perms", ["open", "rw_inherited_file_perms"]),
    ("create_file_perms", ["create", "getattr", "open"]),
    ("rename_file_perms", ["getattr", "rename"]),
    ("delete_file_perms", ["getattr", "unlink"]),
    ("manage_file_perms", ["append", "create", "getattr", "ioctl", "link", "lock", "open", "read", "rename", "setattr",
                           "unlink", "write"]),
    ("relabel_file_perms", ["getattr", "relabelfrom", "relabelto"]),
    ("getattr_dir_perms", ["getattr"]),
    ("search_dir_perms", ["getattr", "open", "search"]),
    ("list_dir_perms", ["getattr", "ioctl", "lock", "open", "read", "search"]),
    ("add_entry_dir_perms", ["add_name", "getattr", "ioctl", "lock", "open", "search", "write"]),
    ("del_entry_dir_perms", ["getattr", "ioctl", "lock", "open", "remove_name", "search", "write"]),
    ("rw_dir_perms", ["add_name", "getattr", "ioctl", "lock", "open", "read", "remove_name", "search", "write"]),
    ("create_dir_perms", ["create", "getattr"]),
    ("manage_dir_perms", ["add_name", "create", "getattr", "ioctl", "link", "lock", "open", "read", "remove_name",
                          "rename", "reparent", "rmdir", "search", "setattr", "unlink", "write"]),
    ("read_lnk_file_perms", ["getattr", "read"]),
    ("manage_lnk_file_perms", ["create", "getattr", "read", "rename", "setattr", "unlink", "write"]),
    ("rw_chr_file_perms", ["append", "getattr", "ioctl", "lock", "open", "read", "write"]),
    ("read_chr_file_perms", ["getattr", "ioctl", "lock", "open", "read"]),
    ("rw_term_perms", ["append", "getattr", "ioctl", "open", "read", "write"]),
    ("read_blk_file_perms", ["getattr", "ioctl", "open", "read"]),
    ("write_sock_file_perms", ["getattr", "open", "write"]),
    ("rw_fifo_file_perms", ["append", "getattr", "ioctl", "lock", "open", "read", "write"]),
    ("read_fifo_file_perms", ["getattr", "ioctl", "lock", "open", "read"]),
    ("create_socket_perms", ["bind", "create", "read", "write"]),
    ("rw_netlink_socket_perms", ["create", "nlmsg_read", "read", "write"]),
    ("signal_perms", ["sigchld", "signal", "signull"]),
]

LOOK_T = ["system_r2", "system_rpc_t", "self_t", "selfish", "object_r_t", "s0_t", "all_t", "stub_t", "t", "x_r", "type_t", "T_t"]
MODNAMES = ["alpha", "beta", "gamma", "foo", "foo_bar", "ssh", "filesystem", "devices", "kernel", "a2", "kernel2", "kern", "foobar", "mls", "mcs", "mls2"]
LAYERS = ["system", "services", "kernel", "apps", "roles", "admin", "system2", "kern"]
ALLIDS = ["C-001", "C-004", "C-005", "C-006", "C-007", "S-001", "S-002", "S-003", "S-004", "S-005", "S-006", "S-007",
          "S-008", "S-009", "S-010", "W-001", "W-002", "W-003", "W-004", "W-005", "W-006", "W-007", "W-008", "W-009",
          "W-010", "W-011", "E-002", "E-003", "E-004", "E-005", "E-006", "E-007", "E-008", "E-009", "E-010"]
ABBREV = {"fs": "filesystem", "corecmd": "corecommands", "seutil": "selinuxutil", "libs": "libraries",
          "dev": "devices", "term": "terminal", "corenet": "corenetwork", "auth": "authlogin",
          "userdom": "userdomain", "sysnet": "sysnetwork"}
ORDER_FL = ["bool", "class", "role", "attribute_role", "attribute", "type"]


WORDS = {"allow", "type", "role", "bool", "class", "if", "else", "self", "user", "sid", "t1", "to", "from"}
FC_MACROS = ["my_fc", "my_fc2", "logdir", "my"]


class Project:
    def __init__(self):
        self.files = []        # PFile
        self.context = set()   # paths below the context root only
        self.modconf = None    # list of (module, status) or None
        self.av = None         # ordered list of (class, [perms]) or None
        self.spt = None        # ordered list of (macro, [perms]) or None
        self.config = None     # dict of settings or None
        self.source = True
        self.kernel = None     # classes of the running kernel (used in normal mode), like av
        self.extra = {}

    def by(self, kind):
        return [f for f in self.files if f.kind == kind]


class Mod:
    def __init__(self, name):
        self.name = name
        self.layer = "system"
        self.types = []
        self.attrs = []
        self.aroles = []
        self.roles = []
        self.bools = []
        self.aliases = []
        self.ifaces = []
        self.tmpls = []

    def syms(self, fl):
        return {"type": self.types + self.aliases, "attribute": self.attrs, "attribute_role": self.aroles,
                "role": self.roles, "bool": self.bools}[fl]


DEFAULT_KINDS = [
    (20, "av"), (6, "call"), (3, "tt"), (3, "xav"), (2, "rt"), (2, "ra"), (2, "rtypes"), (2, "typeattr"),
    (1, "roleattr"), (1, "typealias"), (1, "permissive"), (1, "semi"), (1, "stray"), (4, "optional"),
    (2, "tunable"), (2, "ifdef"), (1, "ifelse"), (1, "boolean"), (4, "req"), (1, "userdebug"), (1, "raw"), (1, "decl"),
    (1, "define"),
]


class Prof:
    """generation profile"""

    def __init__(self, **kw):
        self.kinds = DEFAULT_KINDS
        self.nmods = (1, 4)
        self.nstmts = (0, 7)
        self.te_body = 85           # chance of any te statements
        self.ifs = (0, 3)
        self.tmpls = (0, 1)
        self.fc = 40
        self.modconf = 70
        self.av = 60
        self.spt = 60
        self.config = 60
        self.context = 0
        self.sets = 35              # chance of a braced set
        self.maxdepth = 3
        self.exc = 0                # chance of a disable comment
        self.exc_ids = None
        self.exc_bool = False       # disable comments also inside of the parentheses of boolean blocks
        self.hdr_bare = 8
        self.hdr_bad = 4
        self.perm_order = 75        # chance of an ordered permission list
        self.tmpl_calls = 25
        self.badfmt_fc = 12
        self.if_tmpl_calls = 0      # chance that an interface call names a template
        self.quote_arg = 4
        self.odd_mod = 0
        self.req_ifdef = 6
        self.fc_lines = 8
        self.fc_macros = 0          # weight of lines which are calls of (possibly) custom macros
        self.gen_fc = 0             # chance that an fc file has the name of a generated one
        self.odd_calls = 0          # chance of a call name made of module names and abbreviations
        self.rand_av = 0            # chance that each class or permission is missing from access_vectors
        self.rand_spt = 0           # 0 refpolicy-like macros, 1 random ones, 2 also nested and with unknown permissions
        self.rich_perms = 0         # chance of a permission set derived from a macro
        self.marks = 0              # chance that the body of an interface makes it a special one for the ordering
        self.look = 20              # chance of names that resemble others or special words
        self.clash = 8              # chance that a declaration has the name of an interface
        self.modnames = MODNAMES
        self.ghostpre = ""          # prefix of all names outside the project
        self.neutral = False        # no names shared with projects of other module names
        self.big = 1                # chance that one thing in the project is much larger than usual
        for k, v in kw.items():
            if not hasattr(self, k):
                raise AttributeError(k)
            setattr(self, k, v)


class Gen:
    def __init__(self, src, prof):
        self.s = src
        self.p = prof
        self.mods = []
        self.ghosts = {"type": ["ghost_t", "nope_t"], "attribute": ["ghostattr"], "role": ["ghost_r"],
                       "attribute_role": ["ghostrole_attr"], "bool": ["ghost_bool"]}
        self.ghosts = {k: [prof.ghostpre + x for x in v] for k, v in self.ghosts.items()}
        self.used = set()
        self.serial = 0
        self.inst = []            # literal names which template calls may create
        self.big = None
        self.seen_perms = []    # (class, permissions) of the rules made when rand_spt is 3
        if prof.big and src.chance(prof.big):
            self.big = src.pick(["sets", "perms", "classes", "req", "reqnames", "args", "body", "depth", "mods", "ifs", "fc", "attrs"])

    def size(self, what, lo, hi, top):
        """a number of things: lo to hi, up to top where the project has many of them"""
        if self.big == what and self.s.chance(40):
            return self.s.rng_int(hi, top)
        return self.s.rng_int(lo, hi)

    def bigbody(self):
        return self.big == "body" and self.s.chance(60)

    # ---------------------------------------------------------- symbols
    def fresh(self, n):
        while n in self.used:
            self.serial += 1
            n = "%s%d%s" % (n.rsplit("_", 1)[0], self.serial, "_" + n.rsplit("_", 1)[1] if "_" in n else "")
        self.used.add(n)
        return n

    def build_symbols(self):
        s, p = self.s, self.p
        names = s.sample(p.modnames, min(len(p.modnames), self.size("mods", p.nmods[0], p.nmods[1], 20)))
        for n in names:
            m = Mod(n)
            m.layer = s.pick(LAYERS)
            x = ["%s_t" % n, "%s_exec_t" % n, "%s_log_t" % n, "%s_tmp_t" % n, "%s_t_x" % n, "%s_tt" % n]
            m.types = [self.fresh(y) for y in (x[:1 + s.below(3)] if s.chance(75) else s.sample(x, s.rng_int(1, 4)))]
            if s.chance(40):
                m.attrs = [self.fresh("%s_domain" % n)]
                if s.chance(30):
                    m.attrs.append(self.fresh("%sattr" % n))
            if s.chance(25):
                m.aroles = [self.fresh("%s_roles" % n)]
            if s.chance(30):
                m.roles = [self.fresh("%s_r" % n)]
            if s.chance(25):
                m.bools = [self.fresh("%s_enable" % n)]
            if s.chance(15):
                m.aliases = [self.fresh("%s_alias_t" % n)]
            if p.look and not p.neutral and s.chance(p.look):
                self.look_alikes(m)
            for _ in range(self.size("ifs", p.ifs[0], p.ifs[1], 25)):
                if p.look and not p.neutral and s.chance(p.look // 3):
                    m.ifaces.append(self.fresh(s.pick(["%s_stub_read", "%s_stubs", "%s_stub2", "%s_mystub", "%sstub", "x%s_stubx", "%s_readx", "stub_%s",
                                                       "%s_template_x", "%s_Read"]) % n))
                    continue
                x = s.wpick([(6, "%s_read" % n), (4, "%s_domtrans" % n), (2, "%s_stub" % n), (1, "do_%s" % n),
                             (1, "%s_domain_type" % n), (1, "%s_log_filetrans" % n)])
                m.ifaces.append(self.fresh(x))
            for _ in range(self.size("ifs", p.tmpls[0], p.tmpls[1], 8) if p.tmpls[1] else 0):
                m.tmpls.append(self.fresh(("%s_template" if not p.look or p.neutral or s.chance(85) else "%s_template_stub") % n))
            self.mods.append(m)

    def look_alikes(self, m):
        """declared names close to other names or to special words"""
        s = self.s
        for _ in s.many(1, 3, 40):
            fl = s.wpick([(5, "type"), (2, "attribute"), (2, "role"), (1, "attribute_role")])
            near = [x for mm in self.mods + [m] for x in mm.syms(fl)]
            if fl == "type" and s.chance(40):
                x = s.pick(LOOK_T)
            elif near:
                x = self.near(s.pick(near))
            elif fl == "role":
                x = s.pick(["system_r2", "system_rx", "sys_r"])
            else:
                continue
            if x in self.used or x in WORDS:
                continue
            self.used.add(x)
            {"type": m.types, "attribute": m.attrs, "role": m.roles, "attribute_role": m.aroles}[fl].append(x)

    def near(self, x):
        """a different name close to x"""
        s = self.s
        k = s.below(6)
        if k == 0:
            return x + s.pick(["2", "x", "_t", "_"])
        if k == 1 and len(x) > 3:
            return x[:-1]
        if k == 2:
            i = s.below(len(x))
            y = x[:i] + (x[i].upper() if x[i].islower() else x[i].lower()) + x[i + 1:]
            return y if y != x else x + "x"
        if k == 3:
            return s.pick(["x", "a_"]) + x
        if k == 4 and "_" in x:
            return x.replace("_", "", 1)
        return x.replace("_", "__", 1) if "_" in x else x + "_x"

    def other(self, mod):
        o = [m for m in self.mods if m is not mod]
        return self.s.pick(o) if o else mod

    def sym(self, fl, mod, ctx):
        """a name of the flavor; own, foreign, unknown or a parameter"""
        s = self.s
        params = ctx in ("if", "tmpl")
        k = s.wpick([(10, "own"), (9, "other"), (2, "ghost"), (6 if params else 0, "param"),
                     (1 if self.p.look and not self.p.neutral else 0, "near"),
                     (3 if self.inst and fl == "type" else 0, "inst"), (1, "cross")])
        if k == "param":
            return s.pick(["$1", "$2", "$1", "$3"] if fl != "type" else ["$1", "$2", "$1_t", "$1_exec_t", "$1_t", "$1_tmp", "$1_t_x", "$1_tt"])
        if k == "inst":
            return s.pick(self.inst)
        if k == "near":
            c = [x for mm in self.mods for x in mm.syms(fl)]
            if c:
                x = self.near(s.pick(c))
                if x not in WORDS:
                    return x
        if k == "cross":                     # a name of another flavor
            fl = s.pick(["type", "attribute", "role", "attribute_role"])
        if k != "ghost":
            m = mod if k == "own" else self.other(mod)
            c = m.syms(fl)
            if c:
                return s.pick(c)
            c = [x for mm in self.mods for x in mm.syms(fl)]
            if c and s.chance(60):
                return s.pick(c)
            if mod.types and s.chance(50):
                return s.pick(mod.types)
        return s.pick(self.ghosts[fl])

    def tset(self, mod, ctx, fls=("type",), neg=True, selfok=False):
        """type set -> (items, braces)"""
        s = self.s
        fl = lambda: s.pick(fls)
        if selfok and s.chance(12):
            return (["self"], False) if s.chance(80) else (["self"], True)
        if s.chance(self.p.sets):
            n = self.size("sets", 1, 4, 70)
            items = [self.sym(fl(), mod, ctx) for _ in range(n)]
            if neg:
                items = [("-" + x if s.chance(15 if i else 4) and not x.startswith("$") else x) for i, x in enumerate(items)]
            if selfok and s.chance(8):
                items[s.below(n)] = "self"
            if s.chance(8):
                items = ["~"] + items
            return items, True
        if s.chance(3):
            return ["*"], False
        x = self.sym(fl(), mod, ctx)
        if s.chance(3):
            return ["~", x], False
        return [x], False

    # ---------------------------------------------------------- statements
    def stmt(self, mod, ctx, depth):
        """ctx: te, if, tmpl"""
        s, p = self.s, self.p
        kinds = p.kinds
        if depth >= (p.maxdepth if self.big != "depth" else 14):
            kinds = [x for x in kinds if x[1] not in ("optional", "tunable", "ifdef", "ifelse", "boolean", "userdebug")]
        if self.big == "depth" and 0 < depth < 14 and s.chance(75):
            c = [x for x in kinds if x[1] in ("optional", "tunable", "ifdef", "ifelse", "boolean", "userdebug")]
            kinds = c or kinds
        k = s.wpick(kinds)
        r = getattr(self, "s_" + k)(mod, ctx, depth)
        out = r if isinstance(r, list) else [r]
        if p.exc and s.chance(p.exc):
            self.add_exc(out[0])
        return out

    def add_exc(self, n):
        s = self.s
        ids = s.sample(self.p.exc_ids or ALLIDS, s.wpick([(6, 1), (3, 2), (1, 3)]))
        if s.chance(8):
            # names nothing which could be found here
            ids.insert(s.below(len(ids) + 1), s.pick(["F-001", "F-002", "F-003", "C-099", "E-000"]))
        n.exc = "#selint-disable:" + s.pick(["", " "]) + s.pick([",", ", "]).join(ids)
        if n.k in ("optional", "require", "genreq"):
            n.a["exc_open"] = s.chance(60)
        elif n.k == "boolean" and self.p.exc_bool:
            n.a["exc_open"] = s.chance(60)
        e = n.a.get("els")
        if n.k == "optional" and e is not None and not n.a["exc_open"]:
            e.exc = n.exc

    def body(self, mod, ctx, depth, lo=None, hi=None):
        s = self.s
        lo = self.p.nstmts[0] if lo is None else lo
        hi = self.p.nstmts[1] if hi is None else hi
        out = []
        if self.big == "depth" and depth > 2:
            hi = max(lo, 1)
        for _ in s.many(lo, hi) if depth or not self.bigbody() else range(s.rng_int(20, 120)):
            out += self.stmt(mod, ctx, depth)
        return out

    def version(self):
        s = self.s
        if s.chance(60):
            return s.pick(["1.0", "1", "1.2.3", "1.0.0"])
        part = lambda: s.pick(["0", "1", "7", "10", "42", "99", "007", "123", "20261119", "4294967296"])
        return ".".join(part() for _ in range(s.rng_int(1, 3)))

    def near_class(self):
        """a class name close to a known one or to a class set"""
        s = self.s
        if s.chance(50):
            return s.pick(["file_set", "class_set", "xclass_set", "fileclass_set", "file_class_sets", "file_class_set2",
                           "class_set_file", "socket_set", "file_class_Set", "a_class_set", "nosuch_class_set", "file_perms",
                           "all_class", "self_file"])
        x = self.near(s.pick(sorted(CLASSES)))
        return x if x not in WORDS else "nosuchclass2"

    def classes(self):
        s = self.s
        if s.chance(15):
            n = self.size("classes", 1, 3, len(CLASSES) + 1)
            c = s.sample(sorted(CLASSES) + ["nosuchclass"], n)
            if self.p.look and s.chance(self.p.look // 2):
                c[s.below(n)] = self.near_class()
            return c, True
        if self.p.look and s.chance(self.p.look // 4):
            return [self.near_class()], s.chance(5)
        return [s.wpick([(12, "file"), (6, "dir"), (3, "process"), (2, "lnk_file"), (2, "chr_file"), (2, "fifo_file"),
                         (2, "sock_file"), (1, "blk_file"), (2, "tcp_socket"), (1, "netlink_route_socket"),
                         (1, "nosuchclass"), (2, "file_class_set"), (1, "socket_class_set"), (1, "fd"),
                         (1, "dbus")])], s.chance(5)

    def perms(self, cls):
        s, p = self.s, self.p
        base = CLASSES.get(cls[0], ["read", "write", "getattr", "open"])
        pool = list(base)
        k = s.wpick([(14, "plain"), (5, "macro"), (3, "mixed"), (1, "star"), (1, "comp"), (1, "odd")])
        if p.rand_spt == 3 and s.chance(85):
            items = s.sample(IMPLIERS, s.wpick([(5, 2), (3, 3), (1, 4), (1, 1)]))
            if s.chance(15):
                items.append(s.pick(pool))
            self.seen_perms.append((cls[0], list(items)))
            items = sorted(set(items)) if s.chance(80) else items
            return items, len(items) > 1 or s.chance(25)
        if p.rich_perms and s.chance(p.rich_perms):
            # the permissions of a macro, some left out, some more added
            items = [x for x in s.pick(SPT)[1] if s.chance(85)]
            items += s.sample(pool, s.wpick([(4, 0), (3, 1), (2, 2), (1, 4)]))
            if s.chance(12):
                items.append(s.pick([m for m, _ in SPT]))
            items = sorted(set(items)) or ["read"]
            if s.chance(10):
                items = s.shuffle(items)
            return items, len(items) > 1 or s.chance(25)
        if k == "star":
            return ["*"], False
        suffix = "_%s_perms" % cls[0]
        macros = [m for m, _ in SPT if m.endswith(suffix)] or [m for m, _ in SPT]
        if k == "macro":
            if s.chance(8):
                return [s.pick(["a", "rw", "x_y"]) + s.pick(["_", "", "_x"]) + s.pick(
                    ["use", "proc", "socket", "netlink_socket", "netlink", "signal", "term", "set", "class_set", "fifo", "perm"]
                    + sorted(CLASSES)) + s.pick(["_perms", "_perms", "_perms", "_perm", "_perms_x"])], s.chance(20)
            m = s.pick(macros) if s.chance(70) else s.pick([m for m, _ in SPT] + ["all_file_perms", "all_dir_perms"])
            return [m], s.chance(20)
        n = s.rng_int(1, 6)
        if self.big == "perms" and s.chance(40):
            n = s.rng_int(6, 90)
            pool = list(pool) + ["perm%d" % i for i in range(n)]
        items = s.sample(pool, min(n, len(pool)))
        if k == "mixed":
            items = items[:4] + s.sample(macros, s.rng_int(1, 2))
        if k == "odd":
            items.append(s.pick(["no_such_perm", "no_such_file_perms", "all_file_perms", "all_perms", "perms",
                                 "nosuch_fifo_file_perms", "all_xfile_perm", "all_x", "xall_file_perms", "file_all_perms",
                                 "allfile_perms", "all_file_permsx", "x_perm", "perms_x"]))
        if p.look and s.chance(p.look // 3):
            i = s.below(len(items))
            items[i] = self.near(items[i])
        if s.chance(p.perm_order):
            items = sorted(set(items))
        else:
            items = s.shuffle(items)
            if s.chance(30):
                items.insert(s.below(len(items) + 1), s.pick(items))
        br = len(items) > 1 or s.chance(25)
        if k == "comp":
            items = ["~"] + items
            br = True
        return items, br

    def s_av(self, mod, ctx, depth):
        s = self.s
        fl = s.wpick([(10, "allow"), (2, "dontaudit"), (1, "auditallow"), (1, "neverallow")])
        a, ba = self.tset(mod, ctx, ("type", "type", "attribute"))
        b, bb = self.tset(mod, ctx, ("type", "type", "attribute"), selfok=True)
        if s.chance(12):
            b, bb = list(a), ba
        c, bc = self.classes()
        if ctx != "te" and s.chance(4):
            c, bc = [s.pick(["$2", "$3", "$x"])], False
        pm, bp = self.perms(c)
        if ctx != "te" and s.chance(4):
            pm, bp = [s.pick(["$3", "$2"])], False
        return N("av", fl=fl, src=a, tgt=b, cls=c, perms=pm, br=(ba, bb, bc, bp))

    def s_xav(self, mod, ctx, depth):
        s = self.s
        fl = s.wpick([(10, "allow"), (2, "dontaudit"), (1, "auditallow"), (1, "neverallow")])
        a, ba = self.tset(mod, ctx)
        b, bb = self.tset(mod, ctx, selfok=True)
        if s.chance(12):
            b, bb = list(a), ba
        k = s.below(4)
        if k == 0:
            pm, bp = [s.pick(["0x8910", "35", "ioctl_macro"])], False
        elif k == 1:
            pm, bp = [s.pick(["0x8900", "0x9", "0x12"]), "-", s.pick(["0x8910", "0x10"])], True
            if s.chance(30):
                pm = s.sample(["0x1", "0x5", "0x8000"], s.rng_int(1, 2)) + pm
            if s.chance(30):
                pm += s.pick([["0x8920"], ["0x0fff"], ["0x9000", "-", "0x9010"]])
            if s.chance(10):
                pm = ["~"] + pm
        else:
            pm, bp = s.sample(["0x8910", "0x8920", "0x12", "0xAB", "7", "0x7"], s.rng_int(1, 4)), True
            if s.chance(60):
                pm = sorted(pm)
            if s.chance(15):
                pm = ["~"] + pm
            if s.chance(15):
                pm.append(pm[-1])
        return N("xav", fl=fl, src=a, tgt=b, cls=[s.pick(["file", "tcp_socket", "nosuchclass"])], op="ioctl", perms=pm,
                 br=(ba, bb, False, bp))

    def s_tt(self, mod, ctx, depth):
        s = self.s
        fl = s.wpick([(6, "type_transition"), (1, "type_member"), (1, "type_change"), (1, "range_transition")])
        a, ba = self.tset(mod, ctx, ("type", "attribute"))
        b, bb = self.tset(mod, ctx)
        c, bc = self.classes()
        d = self.sym("type", mod, ctx)
        fname = None
        if fl == "range_transition":
            d = s.pick(["s0", "s0 - s15", "s0:c0", "s0 - s0:c0.c1023", "mcs_systemhigh"])
        elif fl == "type_transition" and s.chance(20):
            fname = s.pick(["obj.name", "x", "a_b-c"])
        return N("tt", fl=fl, src=a, tgt=b, cls=c, dflt=d, fname=fname, br=(ba, bb, bc))

    def s_rt(self, mod, ctx, depth):
        s = self.s
        a, ba = self.tset(mod, ctx, ("role",), neg=False)
        b, bb = self.tset(mod, ctx)
        c, bc = (self.classes() if s.chance(20) else (None, False))
        return N("rt", src=a, tgt=b, cls=c, dflt=self.sym("role", mod, ctx), br=(ba, bb, bc))

    def s_ra(self, mod, ctx, depth):
        a, ba = self.tset(mod, ctx, ("role",), neg=False)
        b, bb = self.tset(mod, ctx, ("role", "attribute_role"), neg=False)
        return N("ra", src=a, tgt=b, br=(ba, bb))

    def s_rtypes(self, mod, ctx, depth):
        a, ba = self.tset(mod, ctx, ("type",))
        r = self.sym("role", mod, ctx) if self.s.chance(85) else "system_r"
        return N("rtypes", role=r, types=a, br=ba)

    def s_typeattr(self, mod, ctx, depth):
        s = self.s
        at = [self.sym("attribute", mod, ctx) for _ in range(s.rng_int(1, 3))]
        return N("typeattr", name=self.sym("type", mod, ctx), attrs=at)

    def s_roleattr(self, mod, ctx, depth):
        s = self.s
        at = [self.sym("attribute_role", mod, ctx) for _ in range(s.rng_int(1, 2))]
        return N("roleattr", name=self.sym("role", mod, ctx), attrs=at)

    def s_typealias(self, mod, ctx, depth):
        s = self.s
        al = [self.fresh("%s_old_t" % mod.name) for _ in range(s.rng_int(1, 2))]
        n = N("typealias", type=self.sym("type", mod, ctx), aliases=al, br=len(al) > 1 or s.chance(30))
        if ctx != "tmpl" and s.chance(60):
            self.inst += al
        return n

    def s_permissive(self, mod, ctx, depth):
        return N("permissive", name=self.sym("type", mod, ctx))

    def s_semi(self, mod, ctx, depth):
        return N("semi")

    def s_stray(self, mod, ctx, depth):
        return N("stray", name=self.s.pick(["stray_word", "simple_macro", "my_macro", mod.types[0] if mod.types else "x_t"]))

    def s_define(self, mod, ctx, depth):
        return N("define", toks=self.s.pick([["`my_def'"], ["`my_def'", ",", "`foo bar'"], ["my_def", ",", "foo"]]))

    def s_raw(self, mod, ctx, depth):
        s = self.s
        t = mod.types[0] if mod.types else "x_t"
        return N("raw", toks=s.pick([
            ["genfscon", "proc", "/foo", "system_u:object_r:%s" % t],
            ["genfscon", "proc", "/foo", "gen_context(system_u:object_r:%s,s0)" % t],
            ["sid", "kernel", "gen_context(system_u:system_r:%s, s0 - s15:c0.c1023, c0.c1023)" % t],
            ["portcon", "tcp", "80", "gen_context(system_u:object_r:%s,s0)" % t],
            ["portcon", "udp", "1000-1001", "system_u:object_r:%s:s0" % t],
            ["netifcon", "eth0", "gen_context(system_u:object_r:%s,s0)" % t, "gen_context(system_u:object_r:%s,s0)" % t],
            ["nodecon", "127.0.0.1 255.0.0.0", "system_u:object_r:%s" % t],
            ["fs_use_trans", "tmpfs", "system_u:object_r:%s" % t, ";"],
            ["fs_use_xattr", "ext4", "gen_context(system_u:object_r:%s,s0)" % t, ";"],
            ["gen_user(staff_u, staff, staff_r sysadm_r, s0, s0 - mcs_systemhigh)"],
            ["typebounds", t, "ghost_t", ";"],
            ["refpolicywarn(`$0($*) has been deprecated.')"],
        ]))

    def arg(self, mod, ctx):
        s, p = self.s, self.p
        x = lambda: self.sym(s.wpick([(8, "type"), (3, "attribute"), (2, "role"), (1, "attribute_role")]), mod, ctx)
        k = s.wpick([(20, "plain"), (3, "brace"), (2, "tick"), (2, "bad"), (self.p.quote_arg, "quoted"), (2, "lit"),
                     (1, "emptytick")])
        if k == "plain":
            return {"items": [x()], "form": "plain"}
        if k == "lit":
            return {"items": [p.ghostpre + s.pick(["foo", "bar", "file", "dir", "s0", "usr"])], "form": "plain"}
        if k == "emptytick":
            return {"items": [], "form": "tick"}
        if k == "quoted":
            return {"items": [s.pick(["name", "a.b", "x_t"])], "form": "quoted"}
        if k == "bad":
            items = [x()]
            for _ in range(s.rng_int(1, 2)):
                y = x()
                items.append(("-" + y) if s.chance(30) and not y.startswith("$") else y)
            if s.chance(25):
                items = [s.pick(["s0", items[0]]), "-", s.pick(["s15", "mls_systemhigh"])]
                items = [items[0], "-" + items[2]]
            elif s.chance(12) and not p.neutral:
                items[0] = s.pick(["system_u", "staff_u", "user_u", "ghost_u", "object_r", "system_r"])
                items[1] = "-" + items[1] if s.chance(80) and items[1][0] not in "-$" else items[1]
            return {"items": items, "form": "bad"}
        n = s.rng_int(1, 3)
        items = [x() for _ in range(n)]
        items = [("-" + y if i and s.chance(20) and not y.startswith("$") else y) for i, y in enumerate(items)]
        if k == "brace":
            return {"items": items, "form": "brace", "comp": s.chance(10)}
        return {"items": items, "form": "tick"}

    def call_name(self, mod, ctx):
        s = self.s
        k = s.wpick([(10, "iface"), (3, "missing"), (3, "macro"),
                     (self.p.tmpl_calls if ctx != "if" else self.p.if_tmpl_calls, "tmpl")])
        if k == "iface":
            c = [i for m in self.mods for i in m.ifaces]
            if c:
                return s.pick(c)
            k = "missing"
        if k == "tmpl":
            c = [i for m in self.mods for i in m.tmpls]
            if c:
                return s.pick(c)
        if self.p.odd_calls and s.chance(self.p.odd_calls):
            a = s.pick([m.name for m in self.mods] + sorted(ABBREV) + sorted(ABBREV.values()) + MODNAMES)
            return s.pick(["%s_%s", "%s_do_%s", "%s%s", "x%s_%s", "%s_%s_x"]) % (
                a, s.pick(["x", "do_it", "pattern", s.pick(self.mods).name, "a"]))
        if k == "missing":
            m = s.pick(self.mods)
            if self.p.neutral:
                return s.pick(["%s_missing", "%sx_do", "%s"]) % m.name
            return s.pick(["%s_missing" % m.name, "fs_getattr", "dev_read", "corenet_x", "unknownmod_do",
                           "%sx_do" % m.name, "%s" % m.name, "files_read_etc_files", "foo_baz", "foo_bar_baz"])
        return s.pick(["domtrans_pattern", "domain_auto_transition_pattern", "domain_transition_pattern",
                       "files_pattern", "can_exec", "filetrans_pattern"])

    def s_call(self, mod, ctx, depth):
        s = self.s
        name = self.call_name(mod, ctx)
        if s.chance(6):
            args = []
        else:
            args = [self.arg(mod, ctx) for _ in range(self.size("args", 1, 3, 40))]
        return N("call", name=name, args=args)

    def s_optional(self, mod, ctx, depth):
        s = self.s
        n = N("optional", self.inner(mod, ctx, depth))
        if s.chance(15) and n.ch:
            e = N("optional_else", self.inner(mod, ctx, depth, 1))
            e.hid = True
            n.a["els"] = e
            return [n, e]
        return n

    def inner(self, mod, ctx, depth, lo=0):
        s = self.s
        if lo == 0 and s.chance(88):
            lo = 1
        return self.body(mod, ctx, depth + 1, lo, 3)

    def cond(self, mod):
        s = self.s
        b = s.pick(mod.bools) if mod.bools else "some_bool"
        return s.pick([[b], ["!", b], [b, "&&", "other_bool"], ["(", b, "||", "b2", ")"], [b, "^", "b2"],
                       [b, "==", "b2"], ["!", "(", b, "!=", "b2", ")"]])

    def s_tunable(self, mod, ctx, depth):
        s = self.s
        ch = [N("m4arg", self.inner(mod, ctx, depth))]
        if s.chance(35):
            ch.append(N("m4arg", self.inner(mod, ctx, depth)))
        return N("tunable", ch, cond=self.cond(mod), q=s.chance(80))

    def s_ifdef(self, mod, ctx, depth):
        s = self.s
        ch = [N("m4arg", self.inner(mod, ctx, depth))]
        if s.chance(35):
            ch.append(N("m4arg", self.inner(mod, ctx, depth)))
        return N("ifdef", ch, cond=s.pick(["distro_debian", "enable_mls", "init_systemd"]),
                 kw=s.pick(["ifdef", "ifdef", "ifndef"]))

    def s_ifelse(self, mod, ctx, depth):
        s = self.s
        ch = []
        for i in range(s.rng_int(3, 8)):
            if i % 3 != 2 and s.chance(75):
                if s.chance(60):
                    ch.append(N("m4arg", [N("stray", name=s.pick(["word_a", "word_b", "$1"]))]))
                else:
                    ch.append(N("m4arg", [], word=s.pick(["$1", "word_c"])))
            else:
                ch.append(N("m4arg", self.inner(mod, ctx, depth)))
        return N("ifelse", ch)

    def s_boolean(self, mod, ctx, depth):
        s = self.s
        a = self.body(mod, ctx, depth + 1, 1, 3)
        b = self.body(mod, ctx, depth + 1, 1, 2) if s.chance(30) else []
        return N("boolean", a + b, cond=self.cond(mod), nthen=len(a), els=bool(b))

    def s_userdebug(self, mod, ctx, depth):
        return N("userdebug", self.body(mod, ctx, depth + 1, 1, 3))

    def reqlines(self, mod, ctx, lo=0):
        s, p = self.s, self.p
        out = []
        for _ in s.many(lo, 5, 60) if self.big != "req" else range(s.rng_int(5, 70)):
            fl = s.wpick([(10, "type"), (4, "attribute"), (3, "role"), (2, "attribute_role"), (2, "bool"), (3, "class")])
            if fl == "class":
                c = s.pick(sorted(CLASSES))
                pm = s.sample(CLASSES[c], s.rng_int(1, 3))
                if s.chance(80):
                    pm = sorted(pm)
                out.append(N("reqdecl", fl=fl, names=[c], attrs=pm, br=len(pm) > 1 or s.chance(60)))
            else:
                n = s.wpick([(7, 1), (3, 2), (1, 3)])
                if self.big == "reqnames":
                    n = s.rng_int(1, 50)
                names = [self.sym(fl, mod, ctx) for _ in range(n)]
                if ctx != "te" and s.chance(4):
                    names[s.below(n)] = s.pick(["%s_$1_t", "x_$2", "%s_$1"]).replace("%s", mod.name)
                out.append(N("reqdecl", fl=fl, names=names))
        if s.chance(60):
            rank = {f: i for i, f in enumerate(ORDER_FL)}
            key = (lambda x: x[:-2] if x.endswith("_t") else x) if s.chance(60) else (lambda x: x)
            for o in out:
                if o.fl != "class":
                    o.a["names"] = sorted(set(o.names), key=key)
            out.sort(key=lambda o: (rank[o.fl], key(o.names[0])))
        if p.exc:
            for o in out:
                if s.chance(p.exc):
                    self.add_exc(o)
        if out and s.chance(p.req_ifdef):
            i = s.below(len(out))
            j = i + 1 + s.below(len(out) - i)
            out[i:j] = [N("reqifdef", out[i:j], cond="distro_debian", kw="ifdef", q=s.chance(75))]
        return out

    def s_req(self, mod, ctx, depth):
        s = self.s
        lo = 1 if s.chance(95) else 0
        lines = self.reqlines(mod, ctx, lo)
        if not lines:
            n = N(s.pick(["genreq", "require"]), [N("comment", text="# nothing")], q=True)
            return n
        k = s.wpick([(8, "genreq"), (3, "require")])
        return N(k, lines, q=s.chance(85))

    def s_decl(self, mod, ctx, depth):
        s = self.s
        if ctx == "te":
            return self.local_decl(mod)
        fl = s.wpick([(6, "type"), (2, "attribute"), (1, "role"), (1, "bool"), (1, "attribute_role")])
        nm = s.pick(["$1_t", "$1_x_t", "%s_$1_t" % mod.name, "$2_t", "$1_$2_t", "$1", "$1_x_t", "$3_t", "$10_t", "x$11", "$1$12_t"]) if fl != "bool" else s.pick(["$1_can", "$1_can_$2", "use_$2"])
        if s.chance(25):
            nm = self.fresh("%s_priv_%s" % (mod.name, {"type": "t", "attribute": "attr", "role": "r", "bool": "b", "attribute_role": "roles"}[fl]))
        al = None
        if fl == "type" and ctx == "tmpl" and s.chance(20):
            # several aliases, with the arguments of the call in their names
            al = [x % mod.name if "%" in x else x for x in s.sample(["$1_al_t", "$2_al_t", "%s_$1_alias_t", "$3_old_t", "$1_$2_alias"],
                                                                     s.rng_int(1, 3))]
        return self.mk_decl(mod, ctx, fl, nm, al)

    def mk_decl(self, mod, ctx, fl, name, aliases=None):
        s = self.s
        a = dict(fl=fl, name=name)
        if fl == "type":
            if s.chance(35):
                a["attrs"] = [self.sym("attribute", mod, ctx) for _ in range(self.size("attrs", 1, 2, 40))]
            if aliases:
                a["aliases"] = aliases
                a["br"] = len(aliases) > 1 or s.chance(30)
        if fl == "bool":
            a["syn"] = s.pick(["", "gen_bool", "gen_tunable", "gen_tunable_q"])
        return N("decl", **a)

    def local_decl(self, mod):
        s = self.s
        fl = s.wpick([(6, "type"), (2, "attribute"), (1, "role"), (1, "attribute_role"), (1, "bool")])
        nm = self.fresh("%s_loc_%s" % (mod.name, {"type": "t", "attribute": "attr", "role": "r",
                                                   "attribute_role": "roles", "bool": "b"}[fl]))
        c = [i for m in self.mods for i in m.ifaces]
        if c and s.chance(self.p.clash):
            x = s.pick(c)
            if x not in self.used_decl:
                self.used_decl.add(x)
                nm = x
        return self.mk_decl(mod, "te", fl, nm)

    # ---------------------------------------------------------- files
    def te_file(self, mod):
        s, p = self.s, self.p
        hn = mod.name
        if s.chance(p.hdr_bad):
            hn = s.pick([hn + "x", hn[:-1] or "q", "other", hn + "_" + hn])
        hdr = N("header", name=hn, macro=not s.chance(p.hdr_bare), ver=self.version())
        if p.exc and s.chance(p.exc):
            self.add_exc(hdr)
        decls = []
        al = list(mod.aliases)
        for i, t in enumerate(mod.types):
            decls.append(self.mk_decl(mod, "te", "type", t, al if i == 0 and al else None))
        for fl in ("attribute", "attribute_role", "role", "bool"):
            for n in mod.syms(fl):
                decls.append(self.mk_decl(mod, "te", fl, n))
        body = self.body(mod, "te", 0) if s.chance(p.te_body) else []
        if s.chance(70):
            nodes = decls + body
        else:
            nodes = list(body)
            for d in decls:
                tgt = nodes
                if s.chance(25):
                    blocks = [n.ch for n in nodes if n.k in ("optional", "userdebug")] + \
                             [a.ch for n in nodes if n.k in ("ifdef", "tunable") for a in n.ch]
                    if blocks:
                        tgt = s.pick(blocks)
                tgt.insert(s.below(len(tgt) + 1), d)
            self.fix_else(nodes)
        return PFile(mod.name, "te", [hdr] + nodes)

    def fix_else(self, nodes):
        """an else branch has to follow its optional directly"""
        for n in nodes:
            if n.ch:
                self.fix_else(n.ch)
        els = [n for n in nodes if n.k == "optional_else"]
        for e in els:
            nodes.remove(e)
        for e in els:
            for i, n in enumerate(nodes):
                if n.k == "optional" and n.a.get("els") is e:
                    nodes.insert(i + 1, e)
                    break

    def if_file(self, mod):
        s, p = self.s, self.p
        nodes = []
        if s.chance(70):
            nodes.append(N("comment", text="## <summary>module</summary>"))
        items = [("interface", i) for i in mod.ifaces] + [("template", t) for t in mod.tmpls]
        items = s.shuffle(items) if len(items) > 1 else items
        for k, n in items:
            if s.chance(70):
                nodes.append(N("comment", text=s.pick(["## <summary>x</summary>", "#", "########"])))
            ctx = "if" if k == "interface" else "tmpl"
            body = self.if_body(mod, ctx)
            d = N(k, body, name=n)
            if p.exc and s.chance(p.exc):
                self.add_exc(d)
            nodes.append(d)
        if s.chance(20):
            nodes.append(N("comment", text="# end"))
        if not items:
            return None
        return PFile(mod.name, "if", nodes)

    def mark_body(self, mod):
        """a body which makes a call of the interface a declaration, or an unordered statement"""
        s = self.s
        k = s.wpick([(3, "assoc"), (8, "chain"), (2, "attr"), (1, "trans"), (2, "role")])
        a1 = {"items": ["$1"], "form": "plain"}
        if k == "assoc":
            out = [N("av", fl="allow", src=["$1"], tgt=["self"], cls=["filesystem"], perms=["associate"], br=(False,) * 4)]
        elif k == "attr":
            out = [N("typeattr", name="$1", attrs=[self.sym("attribute", mod, "if")])]
        elif k == "trans":
            out = [N("call", name="filetrans_pattern", args=[a1, a1])]
        elif k == "role":
            out = [N("rtypes", role="$1", types=["$2"], br=False)]
        else:
            c = [i for m in self.mods for i in m.ifaces]
            out = [N("call", name=s.pick(c), args=[a1])]
        if s.chance(40):
            out.insert(0, self.s_req(mod, "if", 0))
        if s.chance(30):
            out += self.body(mod, "if", 0, 0, 2)
        return out

    def if_body(self, mod, ctx):
        s = self.s
        if ctx == "if" and self.p.marks and s.chance(self.p.marks):
            return self.mark_body(mod)
        out = []
        if s.chance(75):
            n = self.s_req(mod, ctx, 0)
            out.append(n)
        out += self.body(mod, ctx, 0)
        return out

    # ---------------------------------------------------------- file contexts
    def fc_file(self, mod):
        s, p = self.s, self.p
        nodes = []
        for _ in s.many(1, p.fc_lines, 75 if p.fc_lines <= 8 else 90) if self.big != "fc" else range(s.rng_int(10, 150)):
            nodes.append(self.fc_line(mod))
        return PFile(mod.name, "fc", nodes)

    def fc_path(self):
        s = self.s
        if s.chance(35):
            return s.pick(["/usr/bin/foo", "/etc/foo(/.*)?", "/var/log/foo.*", "/usr/lib/foo\\.so", "/dev/foo[0-9]+",
                           "/a/b.c", "/x+y", "/home/HOME_DIR/\\.foo", "/etc/(foo|bar)*", "/w[a.b]c.d", "/u/\\[.x",
                           "/a.?", "/a.+", "/a]*", "/a)+", "/a{2}+", "/b}*", "/c{1,2}", "/x.{2}", "/lib[^/]*/x\\.y\\+", "/e\\.", "/[\\].]+z", "/p[x"])
        parts = []
        for _ in range(s.rng_int(1, 7)):
            parts.append(s.pick(["a", "/", ".", "\\.", "*", ".*", "+", "[ab]", "[.+*]", "[", "]", "(x)", "?", "\\[",
                                 "\\]", "b", "(/.*)?", "\\*", "\\\\", ")", "{", "}", "{2}", "^", "$", "|", "-"]))
        return "/" + "".join(parts)

    def fc_line(self, mod):
        s, p = self.s, self.p
        path = self.fc_path()
        user = s.wpick([(10, "system_u"), (1, "ghost_u"), (1, "staff_u"), (1, "user_u")])
        role = s.wpick([(10, "object_r"), (1, "ghost_r"), (1, self.sym("role", mod, "te")), (1, "system_r")])
        typ = s.wpick([(9, self.sym("type", mod, "te")), (1, "ghost_t"), (1, self.sym("attribute", mod, "te"))])
        lvl = s.wpick([(10, "s0"), (4, None), (2, "s0,c0"), (1, "s0 - mcs_systemhigh"), (1, "mls_systemhigh"),
                       (1, "s0,mcs_systemhigh"), (1, "s"), (1, "s0 , c0.c1023")])
        ws = lambda: s.pick(["\t", " ", "  ", "\t\t", " \t"])
        spec = s.wpick([(6, None), (4, "--"), (1, "-d"), (1, "-l"), (1, "-s"), (1, "-b"), (1, "-c"), (1, "-p")])
        kind = s.wpick([(10, "gen"), (5, "raw"), (2, "none"), (p.badfmt_fc * 17 // 100 + (1 if p.badfmt_fc else 0), "bad"), (1, "macro"),
                        (p.fc_macros, "custom")])
        bad = None
        ctx = None
        if kind == "gen":
            sp = s.pick(["", "", " "])
            l = "" if lvl is None else "," + sp + lvl
            ctx = "gen_context(%s:%s:%s%s)" % (user, role, typ, l)
            rng = lvl
            genc = True
        elif kind == "raw":
            rawl = s.wpick([(6, None), (3, "s0"), (1, "s0-s15"), (1, "s0:c0.c1023"), (1, "s0-s15:c0.c1023"), (1, "s0:c1,c5-s3:c1,c5"),
                            (1, "s0:c0-s0")])
            ctx = "%s:%s:%s%s" % (user, role, typ, "" if rawl is None else ":" + rawl)
            rng = rawl
            genc = False
        elif kind == "none":
            ctx = "<<none>>"
            rng, genc = None, False
        elif kind == "custom":
            nm = s.pick(FC_MACROS)
            return N("fcline", macro=nm, text="%s(%s)" % (nm, s.pick(["", "`/usr/x'", "x", "`/a', `b'", "`/x', foo_t, s0"])))
        elif kind == "macro":
            return N("fcline", text=s.pick(["ifdef(`distro_debian',`", "')", "',`", "', `", "ifndef(`x',`", "# comment",
                                            ""]), skip=True)
        else:
            bad = s.pick(["onlypath", "spec3", "noctx", "norole", "notype", "nocloseg", "unkmacro", "toomany", "badspec", "none"])
            rng, genc = None, False
        if bad:
            g = "gen_context(%s:%s:%s,s0)" % (user, role, typ)
            text = {
                "onlypath": path,
                "spec3": path + ws() + "--x" + ws() + g,
                "noctx": path + ws() + "--",
                "norole": path + ws() + "gen_context(%s,s0)" % user,
                "notype": path + ws() + s.pick(["%s:%s" % (user, role), "gen_context(%s:%s)" % (user, role)]),
                "nocloseg": path + ws() + "gen_context(%s:%s:%s" % (user, role, typ) + s.pick(["", ",s0", ",s0,c0"]),
                "none": path + ws() + s.pick(["<<none>>x", "<<none>", "<none>", "<<None>>", "<<none>>:", "none", "<<none>>>"]),
                "unkmacro": path + ws() + "other_context(%s:%s:%s)" % (user, role, typ),
                "toomany": path + ws() + "%s:%s:%s:%s" % (user, role, typ, s.pick(["s0:c0:c1", "s0:c0:s1:c0", "s0:x-s1:y:z"])),
                "badspec": path + ws() + "-" + s.pick("aefghijkmnoqrtuvwxyzBCDPLS0+:*") + ws() + s.pick([g, "<<none>>"]),
            }[bad]
            return N("fcline", text=text, bad=True)
        text = path + ws() + ((spec + ws()) if spec else "") + ctx
        if s.chance(15):
            text += s.pick([" ", "\t", "  "])
        return N("fcline", text=text, bad=False, path=path, user=user, role=role, type=typ, rng=rng, genc=genc,
                 none=kind == "none")

    # ---------------------------------------------------------- project
    def project(self):
        s, p = self.s, self.p
        pr = Project()
        self.used_decl = set()
        self.build_symbols()
        for m in self.mods:
            for t in m.tmpls:
                pass
        # literal names template calls could create
        if any(m.tmpls for m in self.mods):
            self.inst = [p.ghostpre + x for x in ("foo_t", "bar_t", "foo_x_t")] + ["%s_%sfoo_t" % (self.mods[0].name, p.ghostpre)]
        for m in self.mods:
            f = self.te_file(m)
            f.path = "pol/%s/%s.te" % (m.layer, m.name)
            if p.odd_mod and s.chance(p.odd_mod):
                f.mod = s.pick(["%s.x", "x.%s", "%s-x", "%s.te", "x.y.%s", "%s.if", "0%s"]) % m.name
                f.path = "pol/%s/%s.te" % (m.layer, f.mod)
                f.nodes[0].a["name"] = s.pick([m.name, m.name, "x"])
            pr.files.append(f)
            g = self.if_file(m)
            if g:
                g.path = "pol/%s/%s.if" % (m.layer, m.name)
                pr.files.append(g)
            if s.chance(p.fc):
                h = self.fc_file(m)
                h.path = "pol/%s/%s.fc" % (m.layer, m.name)
                if p.gen_fc and s.chance(p.gen_fc):
                    h.mod = s.pick(["base", "all_mods", s.pick(["all_mods2", "all_mods.x", "xall_mods"]), m.name + ".mod", m.name + ".xmod", "xbase", "base.x", m.name + ".mod.b", m.name + ".module", "mod"])
                    h.path = "pol/%s/%s.fc" % (m.layer, h.mod)
                    if any(x.path == h.path for x in pr.files):
                        continue
                pr.files.append(h)
        if s.chance(p.modconf):
            pr.modconf = []
            for m in self.mods:
                if s.chance(80):
                    pr.modconf.append((m.name, s.wpick([(6, "module"), (4, "base"), (1, "off")])))
            for x in ("filesystem", "devices", "corenetwork", "files") + (
                    tuple(sorted(ABBREV.values())) if p.odd_calls else ()):
                if s.chance(30) and not any(a == x for a, _ in pr.modconf):
                    pr.modconf.append((x, s.pick(["base", "module"])))
            for _ in range(s.below(3) if pr.modconf and s.chance(8) else 0):
                pr.modconf.append((s.pick(pr.modconf)[0], s.pick(["base", "module", "off"])))
        if s.chance(p.av):
            pr.av = self.gen_av()
        if s.chance(p.spt):
            pr.spt = self.gen_spt()
        if s.chance(p.config):
            pr.config = self.gen_config()
        return pr

    def gen_av(self):
        s = self.s
        out = []
        q = self.p.rand_av
        for c, pm in CLASSES.items():
            if s.chance(100 - q if q else 96):
                pm = [x for x in pm if not q or s.chance(100 - q)]
                if pm:
                    out.append((c, pm))
        return out

    def implied_spt(self):
        """macros that need permissions a rule of this case does not list"""
        s = self.s
        out = []
        suf = {"dir": "_dir_perms", "lnk_file": "_lnk_file_perms", "chr_file": "_chr_file_perms",
               "blk_file": "_blk_file_perms", "sock_file": "_sock_file_perms", "fifo_file": "_fifo_file_perms"}
        seen = [x for x in self.seen_perms if len(x[1]) > 1]
        for i in range(min(len(seen), s.wpick([(3, 1), (3, 2), (2, 4), (1, 8)]))):
            c, have = s.pick(seen)
            ps = set(s.sample(have, s.rng_int(2, len(have)))) if s.chance(85) else set(have)
            for _ in range(s.wpick([(5, 1), (2, 2), (1, 0), (1, 3)])):
                ps.add(s.pick(IMPLIED) if s.chance(70) else s.pick(IMPLIERS))
            nm = "%s%d%s" % (s.pick(["a", "rw", "use", "manage"]), i, suf.get(c, s.pick(
                ["_file_perms"] + sorted(suf.values())) if c != "file" else "_file_perms"))
            out.append((nm, sorted(ps) if s.chance(70) else s.shuffle(sorted(ps))))
        return out

    def gen_spt(self):
        s = self.s
        if self.p.rand_spt == 3:
            return self.implied_spt() or self.random_spt()
        if self.p.rand_spt:
            return self.random_spt()
        if s.chance(70):
            return [(m, list(x)) for m, x in SPT]
        return [(m, list(x)) for m, x in s.shuffle(s.subset(SPT, 60))]

    def random_spt(self):
        s = self.s
        out = []
        names = []
        for _ in s.many(1, 14, 85):
            suf, cls = s.pick([("_file_perms", "file"), ("_dir_perms", "dir"), ("_file_perms", "file"),
                               ("_lnk_file_perms", "lnk_file"), ("_chr_file_perms", "chr_file"),
                               ("_term_perms", "chr_file"), ("_blk_file_perms", "blk_file"),
                               ("_sock_file_perms", "sock_file"), ("_fifo_file_perms", "fifo_file"),
                               ("_socket_perms", "tcp_socket"), ("_perms", "process")])
            nm = s.pick(["a", "b", "rw", "use", "read_inherited", "x_y", "manage"]) + suf
            if nm in names and s.chance(90):
                continue
            names.append(nm)
            pool = CLASSES[cls]
            ps = s.sample(pool, s.wpick([(1, 1), (4, 2), (4, 3), (3, 5), (1, 9)]))
            if s.chance(70):
                ps = sorted(ps)
            if self.p.rand_spt > 1:
                if s.chance(30) and len(names) > 1:
                    ps.append(s.pick(names[:-1]))
                if s.chance(10):
                    ps.append(s.pick(["no_such_perm", "later_file_perms", "execheap"]))
                if s.chance(10):
                    ps.append(ps[0])
            out.append((nm, ps))
        if self.p.rand_spt > 1:
            out = s.shuffle(out)
        return out

    def gen_config(self):
        s, p = self.s, self.p
        c = {}
        if s.chance(30):
            c["ordering_rules"] = s.pick(["refpolicy", "refpolicy-light", "refpolicy-lax"])
        if s.chance(60):
            c["assume_users"] = s.subset(["system_u", "staff_u", "user_u"], 60)
        if s.chance(60):
            c["assume_roles"] = s.subset(["object_r", "system_r", "sysadm_r"], 60)
        for k, suf in (("assume_users", "u"), ("assume_roles", "r")):
            if k in c and s.chance(15):
                c[k] = s.shuffle(c[k] + ["extra%d_%s" % (i, suf) for i in range(s.rng_int(4, 24))])
        if s.chance(30):
            c["custom_te_simple_macros"] = s.subset(["simple_macro", "my_macro", "stray_word"], 40)
        if p.fc_macros and s.chance(60):
            c["custom_fc_macros"] = s.subset(FC_MACROS + ["other"], 50)
        if s.chance(25):
            c["ordering_requires"] = s.shuffle(ORDER_FL)
        if s.chance(20):
            c["ordering_requires_same_flavor"] = s.pick(["true", "false"])
        if s.chance(15):
            c["skip_checking_generated_fcs"] = s.pick(["true", "false"])
        return c
