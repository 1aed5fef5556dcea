#!/usr/bin/env python3
"""Build the simulator from /repo's current working tree into /verif/.build/<hash>/."""
import hashlib, os, re, subprocess, sys, glob, shutil, fcntl, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.environ.get("SIM_BUILD", os.path.join(VERIF, ".build"))
WRAPS = """malloc calloc posix_memalign aligned_alloc memalign free realloc m4ri_mmc_malloc m4ri_mmc_free abort exit
__assert_fail random rand lrand48 mzd_add _mzd_add mzd_concat mzd_stack mzd_mul mzd_addmul mzd_copy mzd_transpose
mzd_apply_p_left mzd_apply_p_left_trans mzd_apply_p_right mzd_apply_p_right_trans mzd_apply_p_right_trans_tri
mzd_cmp mzd_equal mzd_is_zero mzd_col_swap mzd_copy_row mzd_row_add mzd_randomize mzd_set_ui mzd_submatrix _mzd_compress_l mzd_ple mzd_inv_m4ri
mzd_init_window mzd_init mzd_free mzd_process_rows mzd_process_rows2 mzd_process_rows3 mzd_process_rows4
mzd_process_rows5 mzd_process_rows6 djb_apply_mzd_ptr srandom srand srand48 drand48 mrand48 time clock gettimeofday
clock_gettime getenv secure_getenv sysconf getpid getrandom sched_yield usleep sleep nanosleep pthread_mutex_lock
pthread_mutex_trylock pthread_mutex_unlock pthread_once""".split()
INC = ["-I", HERE, "-I", REPO, "-I", os.path.join(REPO, "src")]
COV = ["-fsanitize-coverage=trace-pc-guard,pc-table,trace-loads,trace-stores"]

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stdout))

def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:20]

def compile_calls(cmd, out, src):
    """Compile the call wrappers.  A function that is gone or takes other arguments in this tree takes
    only its own wrapper with it; histories that need it are then stopped as out of scope."""
    lines = open(src).read().split("\n"); dropped = []
    tmp = out + ".c"
    for _ in range(6):
        open(tmp, "w").write("\n".join(lines))
        p = subprocess.run(cmd + ["-ferror-limit=0", "-o", out, tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            os.remove(tmp); return dropped
        bad = {int(n) for n in re.findall(r"^%s:(\d+):\d+: (?:fatal )?error:" % re.escape(tmp), p.stdout, re.M)}
        names = [m.group(1) for n in bad for m in [re.match(r"static void c_(\w+)\(CallArgs\*a\)", lines[n - 1])] if m]
        if not names:
            break
        for w in names:
            dropped.append(w)
            lines = ["" if l.startswith("static void c_%s(" % w) else '  {"%s",0},' % w if l.startswith('  {"%s",' % w) else l for l in lines]
    raise RuntimeError(p.stdout)

def build(quiet=True):
    src = sorted(glob.glob(os.path.join(REPO, "src", "*.c")))
    hdr = sorted(glob.glob(os.path.join(REPO, "src", "*.h")) + glob.glob(os.path.join(REPO, "src", "*.inl")))
    sim = sorted(glob.glob(os.path.join(HERE, "*")))
    sim = [s for s in sim if os.path.isfile(s)]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = digest(src + hdr + sim)
        exe = os.path.join(BUILD, "sim-" + key)
        if os.path.exists(exe):
            os.utime(exe)
            return exe
        # a few older binaries may stay (several checks may run from the same tree); drop the rest
        old = sorted(glob.glob(os.path.join(BUILD, "sim-*")), key=os.path.getmtime)
        for o in old[:-3]:
            os.remove(o)
        obj = os.path.join(BUILD, "obj"); os.makedirs(obj, exist_ok=True)
        hk = digest(hdr + [s for s in sim if s.endswith((".h",))])
        simk = digest([s for s in sim])
        jobs = []
        cc = ["clang", "-O1", "-g", "-w", "-c", "-fno-omit-frame-pointer", "-fno-optimize-sibling-calls"]
        def job(s, cmd, key):
            o = os.path.join(obj, "%s-%s.o" % (os.path.basename(s).replace(".", "_"), key))
            jobs.append((o, cmd + ["-o", o + ".tmp", s]))
        for s in src:
            job(s, cc + COV + INC + ["-include", os.path.join(HERE, "prelude.h")], digest([s] + [os.path.join(HERE, "prelude.h"), os.path.join(HERE, "build.py")]) + hk)
        job(os.path.join(HERE, "calls.c"), cc + COV + INC + ["-include", os.path.join(HERE, "prelude.h")], digest([os.path.join(HERE, "calls.c")]) + hk)
        job(os.path.join(HERE, "acc.c"), cc + INC, digest([os.path.join(HERE, "acc.c")]) + hk)
        for s in ("core.cpp", "driver.cpp"):
            job(os.path.join(HERE, s), ["clang++", "-O2", "-g", "-w", "-std=c++17", "-c", "-fno-omit-frame-pointer"] + INC, simk)
        keep = {o for o, _ in jobs}
        for f in glob.glob(os.path.join(obj, "*")):
            if f not in keep:
                os.remove(f)
        # libc calls of the library itself go through the simulator (see sim_memset ff. in core.cpp)
        ren = " ".join("--redefine-sym %s=sim_%s" % (f, f) for f in """memset memcpy memmove memcmp bcmp strlen strcpy
            sprintf snprintf vsprintf vsnprintf printf fprintf puts putchar putc fputc fputs fwrite""".split())
        libobj = {o for o, c in jobs if c[-1] in src}
        def run(j):
            o, cmd = j
            if not os.path.exists(o):
                if cmd[-1].endswith("calls.c"):
                    d = compile_calls(cmd[:-3] + ["-I", HERE], o + ".tmp", cmd[-1])
                    if d:
                        print("not available in this tree: " + " ".join(d), file=sys.stderr)
                else:
                    sh(cmd)
                    if o in libobj:
                        sh(["objcopy"] + ren.split() + [o + ".tmp"])
                os.rename(o + ".tmp", o)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        sh(["clang++", "-no-pie", "-o", exe + ".tmp"] + sorted(keep) + ["-Wl,--wrap=%s" % w for w in WRAPS]
           + ["/usr/lib/x86_64-linux-gnu/libm4ri.a", "-lm"])
        os.rename(exe + ".tmp", exe)
        return exe

if __name__ == "__main__":
    t = time.time()
    try:
        print(build())
    except RuntimeError as e:
        print(e, file=sys.stderr); sys.exit(2)
    print("%.1f s" % (time.time() - t), file=sys.stderr)
