"""Builds implementations of /repo's working tree as shared objects, and the drivers of /verif/harness."""
import glob, hashlib, os, re, shutil, subprocess, sys, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = VERIF + "/harness"
JOBS = 8


class BuildError(Exception):
    pass


def choose(text, macro, value):
    found = 0

    def line(m):
        nonlocal found
        on = m.group(2) == value
        found += on
        return ("" if on else "// ") + "#define " + macro + " " + m.group(2) + m.group(3)

    text = re.sub(r"^[ \t]*(//[ \t]*)?#define[ \t]+%s[ \t]+(\w+)(.*)$" % macro, line, text, flags=re.M)
    if found != 1:
        raise BuildError("expected one '#define %s %s' line, found %d" % (macro, value, found))
    return text


def switch(text, macro, on):
    text, n = re.subn(r"^[ \t]*(?://[ \t]*)?#define[ \t]+%s[ \t]*$" % macro,
                      ("" if on else "// ") + "#define " + macro, text, flags=re.M)
    if n != 1:
        raise BuildError("expected one '#define %s' line, found %d" % (macro, n))
    return text


LEVELS = {"LightSaber": 2, "Saber": 3, "FireSaber": 4}
MU = {2: 10, 3: 8, 4: 6}
ET = {2: 3, 3: 4, 4: 6}


class Config:
    def __init__(self, name, src, edits, l, u=0, n90=0, lanes=1, group="", sources=None, flags=(), extra=(), inc=()):
        self.name, self.src, self.edits = name, src, edits
        self.l, self.u, self.n90, self.lanes, self.group = l, u, n90, lanes, group
        self.sources, self.flags, self.extra, self.inc = sources, list(flags), list(extra), list(inc)

    @property
    def par(self):
        return "%d,%d,%d,%d,10,%d,%d,%d" % (self.l, MU[self.l], ET[self.l], 12 if self.u else 13, self.u, self.n90, self.lanes)

    @property
    def ident(self):
        return self.name.replace("/", "_")


AVXF = ["-msse2avx", "-mavx2", "-maes"]
SRC_REF = "pack_unpack.c poly.c fips202.c verify.c cbd.c SABER_indcpa.c kem.c".split()
SRC_AVX = "pack_unpack.c verify.c fips202.c SABER_indcpa.c kem.c cbd.c".split()
SRC_VREF = SRC_REF + "sha256.c sha512.c aes256ctr.c symmetric-aes.c".split()
SRC_VAVX = SRC_AVX + "symmetric-aes.c crypto_stream_aes256ctr.c".split()
SRC_X4 = SRC_AVX + ["fips202x4.c", "keccak4x/KeccakP-1600-times4-SIMD256.c"]
M4ROOT = "Cortex-M_Implementation_KEM/Cortex-M4/src"
M0ROOT = "Cortex-M_Implementation_KEM/Cortex-M0/saber-ref-mem"


def host_configs():
    out = []
    for name, k in LEVELS.items():
        out.append(Config("Reference/" + name, "Reference_Implementation_KEM",
                          {"SABER_params.h": [(choose, "SABER_L", str(k))]}, k, group="ref", sources=SRC_REF))
        out.append(Config("AVX/" + name, "AVX_Implementation_KEM", {"api.h": [(choose, "SABER_TYPE", name)]}, k,
                          group="avx", sources=SRC_AVX, flags=AVXF))
        for n90 in (0, 1):
            out.append(Config("uSaber-90s-avx2/" + name + ("-90s" if n90 else ""), "Variants/uSaber-90s/avx2",
                              {"api.h": [(choose, "SABER_TYPE", name)], "SABER_params.h": [(switch, "Saber90s", bool(n90))]},
                              k, n90=n90, group="vavx", sources=SRC_VAVX, flags=AVXF))
            for u in (0, 1):
                out.append(Config("uSaber-90s-ref/" + ("u" if u else "") + name + ("-90s" if n90 else ""),
                                  "Variants/uSaber-90s/ref",
                                  {"SABER_params.h": [(choose, "SABER_L", str(k)), (switch, "uSaber", bool(u)),
                                                      (switch, "Saber90s", bool(n90))]},
                                  k, u=u, n90=n90, group="vref", sources=SRC_VREF))
    out.append(Config("SaberX4-avx2/Saber", "Variants/SaberX4_avx2", {}, 3, lanes=4, group="x4", sources=SRC_X4, flags=AVXF))
    only = os.environ.get("VERIF_CONFIGS")      # development aid: a subset of the configurations
    return [c for c in out if re.search(only, c.name)] if only else out


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors="replace")


def makefile_sources(root, fallback):
    """SOURCES of the implementation's own Makefile, so that a file added there is built here too."""
    try:
        text = open(root + "/Makefile", errors="replace").read().replace("\\\n", " ")
        m = re.search(r"^SOURCES\s*[:?]?=\s*(.*)$", text, re.M)
        names = [re.sub(r"\.o$", ".c", n) for n in m.group(1).split()]
        names = [n for n in names if n.endswith(".c") and os.path.exists(os.path.join(root, n))]
        if names:
            return names
    except Exception:
        pass
    return list(fallback)


class Work:
    """Scratch directory of one check; removed at the end."""

    def __init__(self, tag):
        base = os.environ.get("VERIF_WORK", VERIF + "/_work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=tag + "-", dir=base)
        self.cache, self.lock = {}, threading.Lock()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def copy(self, cfg):
        dst = "%s/src/%s" % (self.dir, cfg.ident)
        if os.path.isdir(dst):
            return dst
        shutil.copytree(os.path.join(REPO, cfg.src), dst, symlinks=False,
                        ignore=shutil.ignore_patterns("*.o", "*.a", "*.rsp", "*.req", "obj", "._*"))
        for name, edits in cfg.edits.items():
            p = os.path.join(dst, name)
            text = open(p, encoding="utf-8", errors="surrogateescape").read()
            for f, *args in edits:
                text = f(text, *args)
            open(p, "w", encoding="utf-8", errors="surrogateescape").write(text)
        return dst

    def lib(self, cfg, wraps=("randombytes",), cc="gcc", cflags=("-O3", "-fomit-frame-pointer", "-march=native"),
            tag="", ldflags=(), with_rng=True, skip=()):
        """Compiles one configuration into a shared object; returns its path."""
        src = self.copy(cfg)
        names = makefile_sources(src, cfg.sources) if cfg.group not in ("m4", "m0") else list(cfg.sources)
        if with_rng and "rng.c" not in names and os.path.exists(src + "/rng.c"):
            names.append("rng.c")
        names = [n for n in names if n not in skip]
        odir = "%s/obj/%s%s" % (self.dir, cfg.ident, tag)
        flags = [f for f in cfg.flags if not (cc == "clang" and f == "-msse2avx")]
        os.makedirs(odir, exist_ok=True)
        jobs = []
        for n in names:
            o = odir + "/" + n.replace("/", "_") + ".o"
            jobs.append(([cc, "-w", "-fPIC", "-fcommon", *cflags, *flags, *["-I" + i for i in cfg.inc], "-c", n, "-o", o], src, o))
        for e in cfg.extra:
            o = odir + "/x_" + os.path.basename(e) + ".o"
            jobs.append(([cc, "-w", "-fPIC", *cflags, *flags, *["-I" + i for i in cfg.inc], "-I" + src, "-I" + HARNESS, "-c", e, "-o", o], src, o))

        def one(j):
            return self.compile(cfg, *j)

        with ThreadPoolExecutor(4) as ex:
            objs = list(ex.map(one, jobs))
        so = "%s/%s%s.so" % (self.dir, cfg.ident, tag)
        w = ["-Wl,--wrap=" + x for x in wraps]
        rc, log = run([cc, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", *w, "-o", so, *objs, *ldflags, "-lcrypto"])
        if rc:
            raise BuildError("%s: link\n%s" % (cfg.name, log[-3000:]))
        return so

    def compile(self, cfg, cmd, cwd, o):
        """Compiles, or reuses the object of an identical preprocessed source."""
        if "-S" in cmd or "-g" in cmd:
            key = None
        else:
            pre = [x for x in cmd]
            pre[pre.index("-c")] = "-E"
            pre[pre.index("-o") + 1] = "-"
            r = subprocess.run(pre + ["-P"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            opts = [x for x in cmd[:cmd.index("-c")] if not x.startswith("-I")]
            key = hashlib.sha256(repr(opts).encode() + r.stdout).hexdigest() if r.returncode == 0 else None
        with self.lock:
            ev = self.cache.get(key) if key else None
            mine = ev is None
            if mine:
                ev = [threading.Event(), None]
                if key:
                    self.cache[key] = ev
        if not mine:
            ev[0].wait()
            if ev[1]:
                return ev[1]
        try:
            rc, log = run(cmd, cwd=cwd)
            if rc:
                raise BuildError("%s: %s\n%s" % (cfg.name, " ".join(cmd), log[-3000:]))
            ev[1] = o
            return o
        finally:
            ev[0].set()

    def elf(self, cfg, tag="", cpu="cortex-m4", cflags=("-O3",), extra=(HARNESS + "/emb/stubs.S",), names=None, script="link.ld"):
        """Cross-compiles one embedded configuration into an executable image; returns its path."""
        src = self.copy(cfg)
        if names is None:
            names = sorted(n for n in os.listdir(src) if re.search(r"\.(c|s|S)$", n))
        odir = "%s/obj/%s%s" % (self.dir, cfg.ident, tag)
        os.makedirs(odir, exist_ok=True)
        base = ["arm-none-eabi-gcc", "-w", "-mthumb", "-mcpu=" + cpu, "-mfloat-abi=soft", *cflags, *cfg.flags,
                *["-I" + i for i in cfg.inc], "-I."]
        objs = []
        for n in list(names) + list(extra):
            o = odir + "/" + n.replace("/", "_") + ".o"
            rc, log = run(base + ["-c", n, "-o", o], cwd=src)
            if rc:
                raise BuildError("%s: %s\n%s" % (cfg.name, n, log[-3000:]))
            objs.append(o)
        out = "%s/%s%s.elf" % (self.dir, cfg.ident, tag)
        rc, log = run(base + objs + ["-nostartfiles", "-T", HARNESS + "/emb/" + script if "/" not in script else os.path.join(src, script), "-o", out])
        if rc:
            raise BuildError("%s: link\n%s" % (cfg.name, log[-3000:]))
        return out

    def elfs(self, cfgs, **kw):
        with ThreadPoolExecutor(JOBS) as ex:
            return dict(zip([c.name for c in cfgs], ex.map(lambda c: self.elf(c, **kw), cfgs)))

    def libs(self, cfgs, **kw):
        with ThreadPoolExecutor(JOBS) as ex:
            return dict(zip([c.name for c in cfgs], ex.map(lambda c: self.lib(c, **kw), cfgs)))

    def driver(self, name, extra=(), cflags=("-O3", "-march=native"), cc="gcc", ld=(), out=None, common=("hc.c", "model.c")):
        exe = "%s/%s" % (self.dir, out or os.path.splitext(name)[0])
        srcs = [HARNESS + "/" + name] + [HARNESS + "/" + x for x in common] + list(extra)
        cmd = [cc, "-g", "-Wall", *cflags, "-I" + HARNESS, "-o", exe, *srcs, "-rdynamic", *ld, "-ldl", "-lcrypto", "-lpthread"]
        rc, log = run(cmd)
        if rc:
            raise BuildError("driver %s\n%s" % (name, log[-3000:]))
        return exe
