"""Turn the current /repo working tree into LLVM IR.

A scratch copy of the tree is configured and "built" by the project's own
makefiles with a recording compiler (fakecc); every recorded compilation is
then replayed with clang -O0 -g -emit-llvm and every recorded link gives the
list of modules of a program.  Nothing in /repo is written."""
import atexit, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SA_REPO", "/repo")
CLANG = "/usr/lib/llvm-18/bin/clang"
LINK = "/usr/lib/llvm-18/bin/llvm-link"


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (a vanished anchor, an unreadable
    tree).  Ends the check with exit code 2: neither pass nor violation."""


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="nbsp-sa.")
        atexit.register(shutil.rmtree, _scratch, True)
    return _scratch


class Build:
    def __init__(self):
        root = os.path.realpath(scratch())
        self.root = root
        src = os.path.join(root, "src")
        log = os.path.join(root, "cc.log")
        subprocess.run(["rsync", "-a", "--exclude=/.git", "--exclude=/_build",
                        "--exclude=/dev-notes", REPO + "/", src + "/"], check=True)
        self.src = src
        env = dict(os.environ, SA_LOG=log)
        env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        for v in ("CFLAGS", "MAKEFLAGS"):
            env.pop(v, None)
        for cmd in (["./configure.sh"],
                    ["make", ".SHELLFLAGS=-ec", "CCWFLAGS=-Wall",
                     "CC=" + os.path.join(HERE, "fakecc"),
                     "AR=" + os.path.join(HERE, "fakear")]):
            r = subprocess.run(cmd, cwd=src, env=env, stdin=subprocess.DEVNULL,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise AnalysisBroken("%s failed: %s" % (cmd[0], r.stdout[-1500:]))
        self.compiles = {}      # object path -> (cwd, flags, source)
        self.archives = {}      # archive path -> objects
        self.links = {}         # program path -> inputs
        for line in open(log):
            f = line.rstrip("\n").split("\x1f")
            self._record(f[0], f[1], f[2:])
        if not self.compiles:
            raise AnalysisBroken("the build compiled nothing")
        self.bc = {}

    def _record(self, tool, cwd, a):
        absp = lambda p: os.path.normpath(os.path.join(cwd, p))
        if tool == "fakear":
            ar = [x for x in a if x.endswith(".a")]
            if ar:
                self.archives[absp(ar[0])] = [absp(x) for x in a if x.endswith(".o")]
            return
        csrc = [x for x in a if x.endswith(".c")]
        if "-c" in a:
            flags, i = [], 0
            out = None
            while i < len(a):
                x = a[i]
                if x == "-o":
                    out = a[i + 1]
                    i += 2
                    continue
                if x in ("-I", "-D", "-U", "-iquote", "-isystem", "-include", "-idirafter"):
                    flags += [x, a[i + 1]]
                    i += 2
                    continue
                if x[:2] in ("-I", "-D", "-U") or x.startswith("-std") or x.startswith("-i"):
                    flags.append(x)
                i += 1
            for s in csrc:
                o = out or os.path.basename(s)[:-2] + ".o"
                self.compiles[absp(o)] = (cwd, flags, s)
            return
        out, objs, libs, dirs, i = None, [], [], [], 0
        while i < len(a):
            x = a[i]
            if x == "-o":
                out = a[i + 1]
                i += 1
            elif x.endswith(".o") or x.endswith(".a"):
                objs.append(absp(x))
            elif x == "-L":
                dirs.append(absp(a[i + 1]))
                i += 1
            elif x == "-l":
                libs.append(a[i + 1])
                i += 1
            elif x.startswith("-L"):
                dirs.append(absp(x[2:]))
            elif x.startswith("-l"):
                libs.append(x[2:])
            i += 1
        if out:
            self.links[absp(out)] = (objs, libs, dirs)

    def rel(self, p):
        return os.path.relpath(p, self.src)

    def program(self, rel):
        """objects of one linked program, archives resolved"""
        p = os.path.join(self.src, rel)
        if p not in self.links:
            raise AnalysisBroken("program %s is not linked by the build" % rel)
        objs, libs, dirs = self.links[p]
        res = []
        for o in objs:
            res += self.archives.get(o, [o] if o.endswith(".o") else [])
        for l in libs:
            for d in dirs:
                a = os.path.join(d, "lib%s.a" % l)
                if a in self.archives:
                    res += self.archives[a]
                    break
        return [o for o in dict.fromkeys(res)]

    def compile_all(self, objs=None):
        objs = list(self.compiles) if objs is None else objs
        outd = os.path.join(self.root, "bc")
        os.makedirs(outd, exist_ok=True)

        def one(o):
            if o in self.bc:
                return None
            cwd, flags, s = self.compiles[o]
            bc = os.path.join(outd, self.rel(o).replace("/", "__")[:-2] + ".bc")
            cmd = [CLANG, "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-w",
                   "-fno-builtin", "-U_FORTIFY_SOURCE",
                   "-fdebug-prefix-map=%s/=" % self.src, "-fdebug-prefix-map=%s=." % self.src,
                   "-emit-llvm", "-c", s, "-o", bc] + flags
            r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                return "%s: %s" % (s, r.stdout[-800:])
            self.bc[o] = bc
            return None
        with ThreadPoolExecutor(8) as ex:
            errs = [e for e in ex.map(one, objs) if e]
        if errs:
            raise AnalysisBroken("clang: " + errs[0])

    def link(self, name, objs):
        self.compile_all(objs)
        out = os.path.join(self.root, name + ".bc")
        r = subprocess.run([LINK, "-o", out] + [self.bc[o] for o in objs],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("llvm-link: " + r.stdout[-800:])
        return out


if __name__ == "__main__":
    import time
    t = time.time()
    b = Build()
    print(time.time() - t, len(b.compiles), len(b.archives), len(b.links))
    for l in b.links:
        print(b.rel(l), len(b.program(b.rel(l))))
    b.compile_all()
    print(time.time() - t)
    print(b.link("nbspd", b.program("src/nbspd")))
    print(time.time() - t)
