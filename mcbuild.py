#!/usr/bin/env python3
"""Builds the model-checking binaries from /repo's current working tree.

The repository's own sources are compiled unmodified; the references their objects make to
libc/pthread/socket/pcre2 functions are renamed (objcopy) to the mc_* stand-ins of mc/*.cc.
"""
import glob, hashlib, os, shutil, subprocess, sys, fcntl, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ELMC_REPO", "/repo")
EXCLUDE = {"conn_wsa_errno.c", "mutex_win.c", "thread_win.c", "service.c"}
DEFS = ["-DOPENELP_MAJOR_VERSION=0", "-DOPENELP_MINOR_VERSION=9", "-DOPENELP_PATCH_VERSION=4",
        "-DOPENELP_VERSION=0.9.4-dev", "-DOPENELP_EXTRA_VERSION=dev",
        "-DOPENELP_CONFIG_HINT=../etc/ELProxy.conf", "-DPCRE2_CODE_UNIT_WIDTH=8",
        "-DHAVE_SYSLOG=1", "-DOPENELP_API="]
PROXY_SRC = ["h_auth.cc", "h_relay.cc", "h_sess.cc", "h_reg.cc", "h_life.cc"]
MANY_SRC = ["h_many.cc"]
# harness -> (flavour, [sources], with proxyd)
HARNESS = {
    "proxy": ("asan", PROXY_SRC, False),
    "unit": ("asan", ["h_unit.cc"], False),
    "conn": ("asan", ["h_conn.cc"], False),
    "data": ("asan", ["h_data.cc"], False),
    "daemon": ("asan", ["h_daemon.cc"], True),
    "many": ("many", MANY_SRC, False),
    "conform": ("asan", ["h_conform.cc"], False),
    "race_proxy": ("race", PROXY_SRC, False),
    "race_unit": ("race", ["h_unit.cc"], False),
    "race_conn": ("race", ["h_conn.cc"], False),
    "race_data": ("race", ["h_data.cc"], False),
    "race_daemon": ("race", ["h_daemon.cc"], True),
}


# Functions whose effects would escape the simulation.  Everything else which is not simulated is pure (or the linker fails).
UNSIMULATED = set("""aligned_alloc memalign valloc brk sbrk mmap munmap
pthread_cancel pthread_exit pthread_tryjoin_np pthread_timedjoin_np pthread_barrier_init pthread_barrier_wait
pthread_rwlock_timedrdlock pthread_rwlock_timedwrlock pthread_key_create pthread_setspecific pthread_getspecific pthread_atfork
thrd_create mtx_init mtx_lock cnd_wait sem_open
timer_create setitimer alarm clock_nanosleep signalfd eventfd timerfd_create epoll_create epoll_create1 epoll_wait epoll_ctl
ppoll pselect pipe pipe2 socketpair dup dup3 ioctl readv pread pwrite openat creat openpty sendmmsg recvmmsg
fdopen freopen fseeko ftello fgetpos fsetpos fscanf scanf getchar gets ungetwc dprintf vdprintf putw
tmpfile mkstemp popen pclose system execv execve execvp execl execlp vfork waitpid wait daemon unlink remove rename mkdir rmdir
gethostbyname gethostbyname_r res_query if_nametoindex
sigsuspend sigpending sigaltstack killpg setpgid setpgrp setuid setgid seteuid prctl
quick_exit _Exit abort_handler longjmp siglongjmp""".split())


class BuildError(Exception):
    pass


def sh(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        h.update(b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def repo_files():
    r = glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/*.h")
    for d, _, fs in os.walk(REPO + "/include"):
        r += [os.path.join(d, f) for f in fs]
    return r


RACE_EXTRA = """memcpy memmove memset memcmp strlen strcmp strncmp strcpy strncpy vsnprintf snprintf sprintf
strcat strncat strchr strrchr strstr strnlen strcasecmp strncasecmp stpcpy strftime inet_ntop strtol strtoul atoi""".split()


def redefines(flavour):
    out = []
    for line in open(V + "/mc/redefine.lst"):
        for w in line.split():
            a, _, b = w.partition(":")
            out.append("%s mc_%s" % (a, b or a))
    if flavour == "race":
        out += ["%s mc_%s" % (w, w) for w in RACE_EXTRA]
    return out


def build_repo_objs(flavour, bdir):
    """lib.o (library) and daemon.o (library + proxyd.c) for one flavour."""
    os.makedirs(bdir, exist_ok=True)
    redef = bdir + "/redefine.txt"
    with open(redef, "w") as f:
        f.write("\n".join(redefines(flavour)) + "\n")
    redefm = bdir + "/redefine_main.txt"
    with open(redefm, "w") as f:
        f.write("\n".join(redefines(flavour)) + "\nmain proxyd_main\n")
    srcs = [s for s in sorted(glob.glob(REPO + "/src/*.c")) if os.path.basename(s) not in EXCLUDE]
    flags = ["-std=gnu90", "-w", "-O1", "-g", "-fno-builtin", "-fno-stack-protector", "-fno-pie",
             "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-U_FORTIFY_SOURCE", "-D_FORTIFY_SOURCE=0", "-I" + REPO + "/include"] + DEFS
    if flavour in ("asan", "many"):
        flags += ["-fsanitize=address"]
    elif flavour == "race":
        flags += ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]

    def one(s):
        o = bdir + "/" + os.path.basename(s)[:-2] + ".o"
        sh(["gcc"] + flags + ["-c", s, "-o", o])
        r = redefm if os.path.basename(s) == "proxyd.c" else redef
        sh(["objcopy", "--redefine-syms=" + r, o])
        return o
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(one, srcs))
    lib = [o for o in objs if not o.endswith("/proxyd.o")]
    sh(["ld", "-r", "-T", V + "/mc/elp.ld", "-o", bdir + "/lib.o"] + lib)
    sh(["ld", "-r", "-T", V + "/mc/elp.ld", "-o", bdir + "/daemon.o"] + objs)
    undef = {w.split()[-1] for w in sh(["nm", "-u", bdir + "/daemon.o"]).split("\n") if w.strip()}
    bad = sorted(undef & UNSIMULATED)
    if bad:
        raise BuildError("the code calls functions which are not simulated: " + " ".join(bad))


def cxx(src, out, flavour):
    flags = ["-std=c++17", "-O2", "-g1", "-w", "-fno-pie", "-fno-omit-frame-pointer", "-I" + V + "/mc", "-I" + V + "/h",
             "-I" + REPO + "/include", "-DPCRE2_CODE_UNIT_WIDTH=8", "-DHAVE_SYSLOG=1"]
    if flavour in ("asan", "many"):
        flags += ["-DMC_ASAN"]
        if flavour == "many":
            flags += ["-DMC_MAXFIBER=2400"]
    elif flavour == "race":
        flags += ["-DMC_RACE"]
    sh(["g++"] + flags + ["-c", src, "-o", out])


def gc(root, keep):
    try:
        ds = [os.path.join(root, d) for d in os.listdir(root)]
    except OSError:
        return
    ds = [d for d in ds if d not in keep and os.path.isdir(d)]
    ds.sort(key=lambda d: os.path.getmtime(d))
    for d in ds[:-16]:
        shutil.rmtree(d, ignore_errors=True)


def build(names, root=None):
    """Returns {name: path of binary}."""
    root = root or os.environ.get("ELMC_BUILD") or (V + "/build")
    os.makedirs(root, exist_ok=True)
    lock = open(root + "/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    out, keep = {}, set()
    rfiles = repo_files()
    hfiles = [f for f in rfiles if f.endswith(".h")]
    mcsrc = sorted(glob.glob(V + "/mc/*"))
    try:
        for flavour in sorted({HARNESS[n][0] for n in names}):
            rk = "repo-%s-%s" % (flavour, digest(rfiles + [V + "/mc/redefine.lst", V + "/mc/elp.ld", V + "/mcbuild.py"], flavour))
            rd = os.path.join(root, rk)
            keep.add(rd)
            if not os.path.exists(rd + "/.ok"):
                build_repo_objs(flavour, rd)
                open(rd + "/.ok", "w").close()
            ek = "mc-%s-%s" % (flavour, digest(mcsrc + [V + "/mcbuild.py"], flavour))
            ed = os.path.join(root, ek)
            keep.add(ed)
            jobs, oks = [], []
            if not os.path.exists(ed + "/.ok"):
                os.makedirs(ed, exist_ok=True)
                oks.append(ed)
                for s in ["engine", "libc_sim", "net_sim"] + (["race"] if flavour == "race" else []):
                    jobs.append((V + "/mc/%s.cc" % s, ed + "/%s.o" % s))
            links = []
            for n in names:
                fl, srcs, daemon = HARNESS[n]
                if fl != flavour:
                    continue
                # objects of the harness depend on the headers of the repository only
                xk = "h-%s-%s" % (n, digest(hfiles + mcsrc + glob.glob(V + "/h/*.h") + [V + "/h/" + s for s in srcs]
                                             + [V + "/mcbuild.py"], n))
                xd = os.path.join(root, xk)
                keep.add(xd)
                hk = "bin-%s-%s" % (n, digest(rfiles + mcsrc + [V + "/mcbuild.py"], xk))
                hd = os.path.join(root, hk)
                keep.add(hd)
                out[n] = hd + "/" + n
                if os.path.exists(hd + "/.ok"):
                    continue
                os.makedirs(hd, exist_ok=True)
                objs = [xd + "/" + s[:-3] + ".o" for s in srcs]
                if not os.path.exists(xd + "/.ok"):
                    os.makedirs(xd, exist_ok=True)
                    jobs += [(V + "/h/" + s, o) for s, o in zip(srcs, objs)]
                    oks.append(xd)
                links.append((hd, n, objs, daemon))
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda j: cxx(j[0], j[1], flavour), jobs))
            for d in oks:
                open(d + "/.ok", "w").close()
            for hd, n, objs, daemon in links:
                cmd = ["g++", "-no-pie", "-g", "-o", hd + "/" + n] + objs + \
                    [ed + "/engine.o", ed + "/libc_sim.o", ed + "/net_sim.o"] + \
                    ([ed + "/race.o"] if flavour == "race" else []) + \
                    [rd + ("/daemon.o" if daemon else "/lib.o")] + \
                    (["-fsanitize=address"] if flavour != "race" else []) + ["-lpcre2-8", "-lpthread"]
                sh(cmd)
                open(hd + "/.ok", "w").close()
        for d in keep:
            if os.path.isdir(d):
                os.utime(d)
        gc(root, keep)
    finally:
        lock.close()
    return out


if __name__ == "__main__":
    t = time.time()
    try:
        for k, v in build(sys.argv[1:] or [n for n in HARNESS if all(os.path.exists(V + "/h/" + s) for s in HARNESS[n][1])]).items():
            print(k, v)
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("built in %.1fs" % (time.time() - t))
