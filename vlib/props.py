"""What each property's check builds and runs."""
from .build import *

PROPS = {}


def prop(pid, level, technique):
    def deco(f):
        PROPS[pid] = (f, level, technique)
        return f
    return deco


def kem_jobs(ctx, mode, cfgs, libs, exe, full=lambda c: False, shards=lambda c: 2):
    jobs = []
    for c in cfgs:
        argv = [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", mode]
        if full(c):
            argv += ["--x", "full"]
        jobs.append((c.name, argv, shards(c)))
    return jobs


FULL = {"Reference/Saber", "AVX/Saber", "uSaber-90s-ref/uSaber-90s", "uSaber-90s-ref/Saber", "uSaber-90s-avx2/Saber-90s", "SaberX4-avx2/Saber"}


def simple_kem(ctx, mode, **emb):
    cfgs = host_configs()
    exe = ctx.work.driver("kem.c")
    libs = ctx.work.libs(cfgs)
    jobs = kem_jobs(ctx, mode, cfgs, libs, exe, full=lambda c: c.name in FULL,
                    shards=lambda c: 8 if c.name in FULL or ctx.thorough else 2)
    jobs.sort(key=lambda j: -j[2])
    run_with_embedded(ctx, jobs, **emb)


def run_with_embedded(ctx, jobs, **emb):
    ctx.run_jobs(emb_jobs(ctx, **emb) + jobs)
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


def parkey(c):
    return (c.l, c.u, c.n90)


@prop("P01", "model_checking", "bounded exhaustive enumeration of (keygen, encapsulation, decapsulation) implementation triples and random inputs on the real code")
def p01(ctx):
    cfgs = host_configs()
    exe = ctx.work.driver("kem.c")
    libs = ctx.work.libs(cfgs)
    groups = {}
    for c in cfgs:
        groups.setdefault(parkey(c), []).append(c)
    jobs = []
    for k, cs in groups.items():
        cs.sort(key=lambda c: c.lanes)
        argv = [exe, "--lib", libs[cs[0].name], "--name", cs[0].name, "--par", cs[0].par, "--tier", ctx.tier, "--x", "p01"]
        for c in cs[1:]:
            argv += ["--x", "%s:%d%s%s" % (libs[c.name], c.lanes, ":", c.name)]
        jobs.append(("%s x%d" % (cs[0].name, len(cs)), argv, 8 if len(cs) > 3 else 3))
    ctx.run_jobs(jobs)


@prop("P02", "model_checking", "exhaustive enumeration of ciphertext alterations (every byte and difference, cancelling pairs, runs, coefficients) against the model, on the real code")
def p02(ctx):
    simple_kem(ctx, "p02", m4="2", m0="2", thin=3, thin0=7)


@prop("P03", "model_checking", "exhaustive enumeration of bounded random inputs and public-key fields, executable specification as oracle, on the real code")
def p03(ctx):
    simple_kem(ctx, "p03", m4="3", m0="3")


@prop("P04", "model_checking", "exhaustive enumeration of secret-key and ciphertext field values, executable specification as oracle, on the real code")
def p04(ctx):
    simple_kem(ctx, "p04", m4="4", comp="4", m0="4", thin=4, thin0=5)


@prop("P07", "model_checking", "exhaustive enumeration of slot assignments and accept/reject patterns of the batch code against the single-instance code")
def p07(ctx):
    cfgs = {c.name: c for c in host_configs()}
    x4, avx = cfgs["SaberX4-avx2/Saber"], cfgs["AVX/Saber"]
    exe = ctx.work.driver("kem.c")
    libs = ctx.work.libs([x4, avx])
    ctx.run_jobs([(x4.name, [exe, "--lib", libs[x4.name], "--name", x4.name, "--par", x4.par, "--tier", ctx.tier,
                             "--x", "p07", "--x", libs[avx.name]], 8)])


def alg(ctx, mode, **emb):
    cfgs = host_configs()
    exe = ctx.work.driver("alg.c")
    libs = ctx.work.libs(cfgs, wraps=("randombytes", "shake128", "shake128x4", "saber_aes256ctr_prf"))
    jobs = kem_jobs(ctx, mode, cfgs, libs, exe, full=lambda c: c.name in FULL, shards=lambda c: 8 if c.name in FULL or ctx.thorough else 2)
    jobs.sort(key=lambda j: -j[2])
    run_with_embedded(ctx, jobs, **emb)


@prop("P05", "model_checking", "exhaustive enumeration of monomial/dense operand pairs, block patterns and matrix positions through a programmable XOF, schoolbook model as oracle")
def p05(ctx):
    alg(ctx, "p05", m4="5", m0="5", thin=4, thin0=7)


@prop("P06", "model_checking", "exhaustive enumeration of every bit-group value at every position of the noise stream through a programmable XOF")
def p06(ctx):
    alg(ctx, "p06", m4="6", m0="6", thin=2, thin0=4)


def m4_pack_configs():
    out = []
    for name, k in LEVELS.items():
        for v in ("m4-striding", "m4-tc4kara"):
            for comp in (0, 1):
                out.append(Config("Cortex-M4/%s/%s%s" % (name, v, "+compress" if comp else ""), "%s/%s/%s" % (M4ROOT, name.lower(), v), {}, k,
                                  group="m4", sources=["pack_unpack.c"], flags=["-DSABER_COMPRESS_SECRETKEY"] if comp else []))
    return out


def m0_pack_configs():
    return [Config("Cortex-M0/Saber", M0ROOT, {}, 3, group="m0", sources=["src/pack_unpack.c"], inc=["include"])]


@prop("P08", "model_checking", "exhaustive enumeration of every value at every coefficient/byte position of every packing routine, bit-level definition as oracle")
def p08(ctx):
    cfgs = [c for c in host_configs()] + m4_pack_configs() + m0_pack_configs()
    exe = ctx.work.driver("pack.c")
    libs = ctx.work.libs(cfgs, with_rng=True)
    jobs = []
    for c in cfgs:
        g = {"ref": "ref", "vref": "ref", "avx": "avx", "vavx": "avx", "x4": "x4", "m4": "m4", "m0": "m0"}[c.group]
        if c.n90 and not ctx.thorough:
            continue  # same packing source as the non-90s build of the same directory
        jobs.append((c.name, [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", g],
                     8 if g == "x4" else 2))
    jobs.sort(key=lambda j: -j[2])
    ctx.run_jobs(jobs)


HASHES = [("sha3_512x4", "fips202x4.c"), ("shake256x4", "fips202x4.c"), ("shake128x4", "fips202x4.c"), ("sha3_256x4", "fips202x4.c"), ("sha3_512", "fips202.c"),
          ("shake128", "fips202.c"), ("sha3_256", "fips202.c"), ("sha256", "sha256.c"), ("sha512", "sha512.c")]


def sym_driver(ctx, mode, pick, first=lambda cfgs, cmd: []):
    cfgs = [c for c in host_configs() if pick(c)]
    exe = ctx.work.driver("sym.c")
    libs = ctx.work.libs(cfgs)
    ctx.run_jobs(first(cfgs, lambda c, mode: [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", mode]) + [(c.name, [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", mode] + (["--x", "huge"] if mode == "p10" and c.n90 else []), 8) for c in cfgs])


@prop("P09", "model_checking", "exhaustive enumeration of input length x output length x overlap for every hash and XOF, standard as oracle")
def p09(ctx):
    # the hash sources do not depend on the parameter set: one build per directory, both hash families of the variants
    def huge(cfgs, cmd):
        # lengths beyond 32 bits take seconds each: once per distinct source text
        jobs, seen = [], set()
        for c in cfgs:
            for fn, name in HASHES:
                p = os.path.join(REPO, c.src, name)
                key = (fn, open(p, "rb").read() if os.path.exists(p) else c.name)
                if key not in seen:
                    seen.add(key)
                    jobs.append((c.name, cmd(c, "p09huge") + ["--x", fn], 2 if "shake" in fn else 1))
        return jobs
    sym_driver(ctx, "p09", lambda c: c.l == 3 and not c.u, first=huge)
    c = m0_pack_configs()[0]
    exe = ctx.work.driver("embsym.c", common=EMB)
    elf = ctx.work.elf(c, cpu="cortex-m0", names=m0_sources(os.path.join(REPO, c.src)), extra=(HARNESS + "/emb/stubs0.S",))
    ctx.run_jobs([(c.name, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", elf], 16)])


@prop("P10", "model_checking", "exhaustive enumeration of lengths, single-byte keys/nonces, counter carries and request splits, AES-256 of OpenSSL as oracle")
def p10(ctx):
    sym_driver(ctx, "p10", lambda c: c.l == 3 and not c.u and c.group in ("vref", "vavx"))


RNG_CFG = ["Reference/Saber", "AVX/Saber", "uSaber-90s-ref/Saber", "uSaber-90s-avx2/Saber", "SaberX4-avx2/Saber"]


def rng_driver(ctx, mode):
    cfgs = {c.name: c for c in host_configs()}
    cfgs = [cfgs[n] for n in RNG_CFG]
    exe = ctx.work.driver("drbg.c")
    libs = ctx.work.libs(cfgs, wraps=())
    ctx.run_jobs([(c.name, [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", mode], 8) for c in cfgs])


@prop("P11", "model_checking", "exhaustive enumeration of operation sequences, lengths, seed bits and counter carries against an SP 800-90A state machine, in lockstep with the real generator")
def p11(ctx):
    rng_driver(ctx, "p11")


@prop("P12", "model_checking", "exhaustive enumeration of request splits, refusals and limits against a stream-position model, in lockstep with the real seed expander")
def p12(ctx):
    rng_driver(ctx, "p12")


@prop("P13", "fault_enumeration", "enumeration of a failure at every cipher-library call of every scenario on the real code, each in its own process")
def p13(ctx):
    ctx.rule = "one execution per (scenario, cipher-library call that fails, kind of failure); all of them"
    rng_driver(ctx, "p13")


@prop("P14", "model_checking", "exhaustive enumeration of buffer placements (alignments, guard pages), prior memory contents and stack contents on the real code")
def p14(ctx):
    cfgs = host_configs()
    exe = ctx.work.driver("mem.c")
    libs = ctx.work.libs(cfgs)
    dbg = ctx.work.libs(cfgs, cflags=("-O0",), tag="-O0") if ctx.thorough else {}
    jobs = []
    for c in cfgs:
        for so, t in [(libs[c.name], "")] + ([(dbg[c.name], " -O0")] if dbg else []):
            jobs.append((c.name + t, [exe, "--lib", so, "--name", c.name + t, "--par", c.par, "--tier", ctx.tier], 2))
    # the same calls with every access of the code to its own objects monitored
    aexe = ctx.work.driver("mem.c", cflags=("-O1", "-march=native", "-fsanitize=address"), out="mem-inner")
    alibs = ctx.work.libs(cfgs, cflags=("-O1", "-march=native", "-fsanitize=address"), tag="-inner", ldflags=("-fsanitize=address",))
    for c in cfgs:
        jobs.append((c.name + " monitored", [aexe, "--lib", alibs[c.name], "--name", c.name + " monitored", "--par", c.par, "--tier", ctx.tier], 1))
    run_with_embedded(ctx, jobs, m4="p", comp="p", m0="p")


@prop("P15", "model_checking", "explicit-state breadth-first search over call histories; a state is the library's writable memory, run to a fixpoint, outputs compared with the model in every transition")
def p15(ctx):
    cfgs = host_configs()
    exe = ctx.work.driver("hist.c")
    libs = ctx.work.libs(cfgs)
    run_with_embedded(ctx, [(c.name, [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier], 1) for c in reversed(cfgs)],
                      m4="h", comp="h", m0="h")
    ctx.exhaustive = ctx.exhaustive and ctx.stats.get("fixpoints_reached") == ctx.stats.get("configurations")


TSAN = ("-O2", "-fomit-frame-pointer", "-march=native", "-fsanitize=thread", "-fno-builtin")


@prop("P16", "model_checking", "stateless exploration of all interleavings of two calls with at most two preemptions, on real threads, switching at every access to conflicting library memory (memory-access callbacks as scheduler)")
def p16(ctx):
    cfgs = host_configs()
    exe = ctx.work.driver("conc.c")
    libs = ctx.work.libs(cfgs, cflags=TSAN, wraps=("randombytes", "memcpy", "memmove", "memset"), tag="-sched")
    ctx.run_jobs([(c.name, [exe, "--lib", libs[c.name], "--name", c.name, "--par", c.par, "--tier", ctx.tier], 4) for c in reversed(cfgs)])
    ctx.exhaustive = ctx.exhaustive and not ctx.stats.get("pairs_with_thinned_schedules")


TRACE = ("-O2", "-fomit-frame-pointer", "-march=native", "-fno-builtin", "-fno-stack-protector", "-fsanitize=kernel-address",
         "-mllvm", "-asan-instrumentation-with-call-threshold=0", "-mllvm", "-asan-stack=0", "-mllvm", "-asan-globals=0",
         "-mllvm", "-asan-use-stack-safety=0", "-fsanitize-coverage=trace-pc")


@prop("P17", "model_checking", "self-composition by enumeration: the recorded trace of every basic block and data address is compared for all enumerated secrets and ciphertext alterations on the real code")
def p17(ctx):
    cfgs = host_configs()
    exe = ctx.work.driver("trace.c")
    libs = ctx.work.libs(cfgs, cc="clang", cflags=TRACE, tag="-trace",
                         wraps=("randombytes", "memcpy", "memmove", "memset", "memcmp", "bcmp", "strncmp", "strcmp",
                                "malloc", "calloc", "realloc", "free", "aligned_alloc", "posix_memalign"))
    jobs = kem_jobs(ctx, "p17", cfgs, libs, exe, full=lambda c: c.name in FULL, shards=lambda c: 8 if c.name in FULL or ctx.thorough else 2)
    # the embedded code: the emulator reports every instruction address and data address
    emb = m4_configs() + m0_pack_configs()
    exe = ctx.work.driver("trace.c", common=EMB, cflags=("-O2", "-DEMU"), out="trace-emb")
    elfs = ctx.work.elfs(emb[:-1])
    elfs[emb[-1].name] = ctx.work.elf(emb[-1], cpu="cortex-m0", cflags=("-O3",), names=m0_sources(os.path.join(REPO, emb[-1].src)), extra=(HARNESS + "/emb/stubs0.S",))
    for c in emb:
        flags = "0" if c.group == "m0" else "c" if "SABER_COMPRESS" in " ".join(c.flags) else "-"
        jobs.append((c.name, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", elfs[c.name], "--x", flags], 8 if c.group == "m0" else 4))
    jobs.sort(key=lambda j: -j[2])
    ctx.run_jobs(jobs)
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


EMB = ("emu.c", "arm.c", "hc.c", "model.c")


def m4_configs():
    out = m4_pack_configs()
    for c in out:
        c.inc = [HARNESS + "/emb"]
    return out


def emb_jobs(ctx, m4="", comp="", m0="", thin=1, thin0=1):
    """Jobs running parts of the Cortex-M enumerations (P18, P19 run all of them); thin: every n-th case in the quick tier."""
    jobs = []
    if ctx.thorough:
        thin = thin0 = 1
    exe = ctx.work.driver("emb.c", common=EMB)
    cfgs = [c for c in m4_configs() if (comp if "SABER_COMPRESS" in " ".join(c.flags) else m4)]
    elfs = ctx.work.elfs(cfgs)
    for c in cfgs:
        k = "SABER_COMPRESS" in " ".join(c.flags)
        jobs.append((c.name, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", elfs[c.name], "--x", "c" if k else "-", "--x", comp if k else m4], (2, thin)))
    if m0:
        c = m0_pack_configs()[0]
        names = m0_sources(os.path.join(REPO, c.src))
        soft, stub = keccak_elsewhere(c, names)
        elf = ctx.work.elf(c, tag="-k", cpu="cortex-m0", names=soft, extra=(stub,))
        jobs.append((c.name, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", elf, "--x", "0", "--x", m0], (16, thin0)))
    return jobs


def keccak_elsewhere(c, names):
    """Without the assembly Keccak, when it stands in one file by itself."""
    rest = []
    for n in names:
        text = open(os.path.join(REPO, c.src, n), errors="replace").read()
        if n.endswith((".S", ".s")) and re.search(r"^KeccakF1600_StatePermute:", text, re.M):
            continue
        rest.append(n)
    if len(rest) != len(names) - 1:
        return names, HARNESS + "/emb/stubs0.S"
    return rest, HARNESS + "/emb/stubs0k.S"


@prop("P18", "model_checking", "exhaustive enumeration of the field values, placements and operand patterns of P02-P06 on the cross-compiled Cortex-M4 code, executed instruction by instruction, executable specification as oracle")
def p18(ctx):
    cfgs = m4_configs()
    exe = ctx.work.driver("emb.c", common=EMB)
    elfs = ctx.work.elfs(cfgs)
    jobs = []
    for c in cfgs:
        comp = "SABER_COMPRESS" in " ".join(c.flags)
        for parts, sh in ([("s", 4)] if comp else [("k", 8), ("a", 8)]):
            jobs.append((c.name, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier, "--x", elfs[c.name],
                                  "--x", "c" if comp else "-", "--x", parts], sh))
    if ctx.thorough:
        slow = ctx.work.elfs(cfgs, tag="-Os", cflags=("-Os",))
        for c in cfgs:
            comp = "SABER_COMPRESS" in " ".join(c.flags)
            jobs.append((c.name + " -Os", [exe, "--name", c.name + " -Os", "--par", c.par, "--tier", "quick", "--x", slow[c.name],
                                           "--x", "c" if comp else "-", "--x", "s"], 4))
    ctx.run_jobs(jobs)
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


@prop("P24", "model_checking", "exhaustive enumeration of monomial pairs, dense operands, block patterns and coefficient values through every assembly multiplication routine, shipped and generated, executed instruction by instruction, schoolbook product as oracle")
def p24(ctx):
    cfgs = [c for c in m4_configs() if "Saber/m4" in c.name and c.l == 3 and not c.flags]
    exe = ctx.work.driver("mulasm.c", common=EMB)
    jobs = [(c.name, ctx.work.elf(c)) for c in cfgs]
    # what the repository's generator writes, before and after its alignment pass
    for c in cfgs:
        src = ctx.work.copy(c)
        gen = src + "/generate-multiplication.py"
        if not os.path.exists(gen):
            continue
        for n in (16, 32):
            for fix in (0, 1):
                text = subprocess.run(["python3", "-B", "-W", "ignore", gen, str(n)], stdout=subprocess.PIPE, cwd=src, timeout=120)
                name = "%s generated %d%s" % (c.name, n, " aligned" if fix else "")
                d = ctx.work.dir + "/gen%d%d" % (n, fix)
                shutil.copytree(src, d)
                for f in os.listdir(d):
                    if f.endswith(".s"):
                        os.unlink(d + "/" + f)
                open(d + "/gen.s", "wb").write(text.stdout)
                if fix and os.path.exists(d + "/fix-alignment.py"):
                    subprocess.run(["python3", "-B", "fix-alignment.py", "gen.s"], cwd=d, timeout=120, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                e = Config(name, d, {}, c.l, group="m4", sources=[], flags=[], inc=c.inc)
                try:
                    jobs.append((name, ctx.work.elf(e, tag="-gen%d%d" % (n, fix))))
                except BuildError as err:
                    ctx.violation(name, "generate", "the generator's output for %d does not build: %s" % (n, str(err)[-300:]))
    ctx.run_jobs([(n, [exe, "--name", n, "--par", cfgs[0].par, "--tier", ctx.tier, "--x", elf], 8) for n, elf in jobs])
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


def m0_sources(root):
    try:
        text = open(root + "/Makefile", errors="replace").read().replace("\\\n", " ")
        m = re.search(r"^SABER_SRC\s*[:?]?=\s*(.*)$", text, re.M)
        names = ["src/" + n for n in m.group(1).split()]
        if names and all(os.path.exists(root + "/" + n) for n in names):
            return names
    except Exception:
        pass
    return ["src/" + n for n in "cbd.c kem.c pack_unpack.c poly.c poly_mul.c encode.c SABER_indcpa.c verify.c fips202.c asm_KeccakF-1600.S".split()]


@prop("P19", "model_checking", "exhaustive enumeration of field values, ciphertext alterations, placements and call sequences on the cross-compiled Cortex-M0 code, executed instruction by instruction, executable specification as oracle")
def p19(ctx):
    c = m0_pack_configs()[0]
    exe = ctx.work.driver("emb.c", common=EMB)
    names = m0_sources(os.path.join(REPO, c.src))
    jobs = []
    for opt in ("-O3",) + (("-Os",) if ctx.thorough else ()):
        elf = ctx.work.elf(c, tag=opt, cpu="cortex-m0", cflags=(opt,), names=names, extra=(HARNESS + "/emb/stubs0.S",))
        soft, stub = keccak_elsewhere(c, names)
        elfk = ctx.work.elf(c, tag="-k" + opt, cpu="cortex-m0", cflags=(opt,), names=soft, extra=(stub,))
        for e, parts, sh in ((elf, "k", 64), (elf, "m", 8), (elfk, "a", 16)):
            jobs.append((c.name + opt, [exe, "--name", c.name, "--par", c.par, "--tier", ctx.tier if opt == "-O3" else "quick", "--x", e, "--x", "0", "--x", parts], sh))
    ctx.run_jobs(jobs)
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


def m0_main(root):
    try:
        text = open(root + "/Makefile", errors="replace").read().replace("\\\n", " ")
        m = re.search(r"^SRC\s*[:?]?=\s*(.*)$", text, re.M)
        names = [n.replace("$(SDIR)", "src") for n in m.group(1).split()]
        if names and all(os.path.exists(root + "/" + n) for n in names):
            return names
    except Exception:
        pass
    return ["src/" + n for n in "init.c prng.c uart.c benchmark.c main.c".split()]


def memsize(text):
    """The firmware's other program, selected as evaluate.py does."""
    text, n = re.subn(r"^[ \t]*#define[ \t]+SPEED[ \t]*$", "#define MEMSIZE", text, flags=re.M)
    if n != 1:
        raise BuildError("no '#define SPEED' line")
    return text


def firmware(ctx, mode, shards):
    exe = ctx.work.driver("fw.c", common=EMB)
    jobs = []
    for opt in ("-O3",) + (("-Os",) if ctx.thorough else ()):
        for m in (mode,) + (("p22m",) if mode == "p22" else ()):
            c = m0_pack_configs()[0]
            if m == "p22m":
                c.name, c.edits = c.name + " MEMSIZE", dict(c.edits, **{"src/main.c": [(memsize,)]})
            names = m0_sources(os.path.join(REPO, c.src))
            names += [n for n in m0_main(os.path.join(REPO, c.src)) if n not in names]
            try:
                ctx.work.copy(c)
            except BuildError as e:
                ctx.note("the memory measuring program was not explored: %s" % e)
                continue
            elf = ctx.work.elf(c, tag="-fw" + opt, cpu="cortex-m0", cflags=(opt,), names=names, extra=(), script="./linker_script.ld")
            jobs.append((c.name + " " + opt, [exe, "--name", c.name + " " + opt, "--par", c.par, "--tier", ctx.tier, "--x", elf, "--x", m], shards))
    ctx.run_jobs(jobs)
    if ctx.stats.get("configurations_cut_short"):
        ctx.exhaustive = False


@prop("P20", "model_checking", "exhaustive enumeration of request lengths, request sequences, device answer patterns and initial modes on the cross-compiled firmware against a model of the random generator's registers")
def p20(ctx):
    firmware(ctx, "p20", 8)


@prop("P22", "model_checking", "execution of the linked firmware image from reset in the instruction-level emulator, for all enumerated initial memory contents, device answer patterns and random words, executable specification as oracle")
def p22(ctx):
    firmware(ctx, "p22", 16)


def scripts(ctx, mode, shards):
    d = ctx.work.dir + "/scripts"
    shutil.copytree(os.path.join(REPO, "Scripts/Python_Scripts/select_params"), d, ignore=shutil.ignore_patterns("__pycache__"))
    ctx.run_jobs([("select_params", ["python3", "-B", "-W", "ignore", HARNESS + "/prob.py", d, mode, "--tier", ctx.tier], shards)])


@prop("P21", "model_checking", "exhaustive enumeration of all small finite laws, moduli, exponents and thresholds through the real functions, exact rational arithmetic as oracle")
def p21(ctx):
    scripts(ctx, "p21", 8)


@prop("P23", "model_checking", "exhaustive enumeration of the points at which the security estimate fails and of the failure targets through the real search, independent exact computation as oracle")
def p23(ctx):
    scripts(ctx, "p23", 16)
