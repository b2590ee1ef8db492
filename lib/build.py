"""Builds /repo's current sources into a gitignored folder, without touching /repo.

Flavours:
  plain   -O1, used by the model based checks (fast)
  asan    -O1 -fsanitize=address,undefined, used by the robustness checks
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SELINT_REPO", "/repo")
SRC = os.path.join(REPO, "src")

VERSION = "9.9.9-verif"

FLAVOURS = {
    "plain": ["-O1", "-g"],
    "asan": ["-O1", "-g", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-DZYGOTE_SAN"],
}


class BuildError(Exception):
    pass


def sources():
    out = []
    for n in sorted(os.listdir(SRC)):
        if n in ("lex.c", "parse.c", "parse.h", "lex.h"):
            continue
        if n.endswith((".c", ".h", ".l", ".y")):
            out.append(n)
    return out


def version_string():
    """AC_INIT version is a build matter; we use our own constant."""
    return VERSION


def tree_hash(flavour):
    h = hashlib.sha256()
    h.update(flavour.encode())
    h.update(repr(FLAVOURS[flavour]).encode())
    with open(os.path.join(HERE, "zygote.c"), "rb") as f:
        h.update(f.read())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    for n in sources():
        h.update(n.encode() + b"\0")
        with open(os.path.join(SRC, n), "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def run(cmd, cwd):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode("utf-8", "replace")))


def build(flavour):
    """Returns the path of the fork-server binary for the current tree."""
    root = os.path.join(VERIF, "build")
    os.makedirs(root, exist_ok=True)
    key = "%s-%s" % (flavour, tree_hash(flavour))
    final = os.path.join(root, key)
    binary = os.path.join(final, "selint-zygote")
    with open(os.path.join(root, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(binary):
            return binary
        # drop older builds of this flavour
        old = sorted((os.path.getmtime(os.path.join(root, d)), d)
                     for d in os.listdir(root) if d.startswith(flavour + "-"))
        for _, d in old[:-3]:
            shutil.rmtree(os.path.join(root, d), ignore_errors=True)
        tmp = tempfile.mkdtemp(prefix="tmp-", dir=root)
        try:
            for n in sources():
                shutil.copyfile(os.path.join(SRC, n), os.path.join(tmp, n))
            with open(os.path.join(tmp, "config.h"), "w") as f:
                f.write('#define VERSION "%s"\n#define PACKAGE "selint"\n'
                        '#define PACKAGE_VERSION VERSION\n#define PACKAGE_STRING "selint " VERSION\n'
                        '#define PACKAGE_NAME "selint"\n' % VERSION)
            run(["bison", "-d", "-Wno-other", "-Wno-yacc", "-o", "parse.c", "parse.y"], tmp)
            run(["flex", "-o", "lex.c", "lex.l"], tmp)
            flags = FLAVOURS[flavour] + ["-w", "-std=gnu11", "-D_GNU_SOURCE", "-DHAVE_CONFIG_H",
                                         "-DSYSCONFDIR=\"sysconf\"", "-I", tmp]
            units = [n for n in sorted(os.listdir(tmp)) if n.endswith(".c")]

            def one(u):
                run(["gcc"] + flags + ["-Dmain=selint_main", "-c", u, "-o", u[:-2] + ".o"], tmp)

            shutil.copyfile(os.path.join(HERE, "zygote.c"), os.path.join(tmp, "zz_zygote.c"))
            with ThreadPoolExecutor(8) as ex:
                futs = [ex.submit(one, u) for u in units]
                futs.append(ex.submit(run, ["gcc"] + flags + ["-c", "zz_zygote.c", "-o", "zz_zygote.o"], tmp))
                for f in futs:
                    f.result()
            objs = [u[:-2] + ".o" for u in units] + ["zz_zygote.o"]
            run(["gcc"] + FLAVOURS[flavour] + objs +
                ["-Wl,--wrap=fts_open,--wrap=access,--wrap=fopen,--wrap=open,--wrap=stat,--wrap=lstat,--wrap=opendir,--wrap=scandir,--wrap=isatty", "-lconfuse", "-lm", "-o", "selint-zygote"], tmp)
            for n in os.listdir(tmp):
                if n.endswith(".o"):
                    os.unlink(os.path.join(tmp, n))
            os.rename(tmp, final)
        except BaseException:
            shutil.rmtree(tmp, ignore_errors=True)
            raise
    return binary


if __name__ == "__main__":
    for fl in sys.argv[1:] or sorted(FLAVOURS):
        print(build(fl))
