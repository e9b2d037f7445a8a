"""Builds the simulator against /repo's current working tree."""
import concurrent.futures as cf, glob, os, re, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
WRAPS = """malloc calloc realloc free aligned_alloc posix_memalign clock_gettime time gettimeofday
_ZNSt6chrono3_V212steady_clock3nowEv _ZNSt6chrono3_V212system_clock3nowEv socket bind listen accept accept4 close epoll_create
epoll_create1 epoll_ctl epoll_wait epoll_pwait eventfd fcntl ioctl pipe pipe2 read write recv recvfrom recvmsg send sendto sendmsg
readv writev setsockopt getsockopt getsockname getpeername shutdown sigaction timerfd_create timerfd_settime poll connect unlink
chmod fchmod fchmodat umask daemon pause remove stat lstat access""".split()

class BuildError(Exception):
    pass

def headers(inc):
    d = os.path.join(inc, "cachelot"); os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "config.h"), "w") as f:
        f.write("#ifndef CONFIG_H_INCLUDED\n#define CONFIG_H_INCLUDED\n#define HAVE_ALIGNED_ALLOC 1\n#define HAVE_POSIX_MEMALIGN 1\n#endif\n")
    with open(os.path.join(d, "version.h"), "w") as f:
        f.write('''#ifndef CACHELOT_VERSION_H_INCLUDED
#define CACHELOT_VERSION_H_INCLUDED
#define CACHELOT_VERSION_MAJOR 0
#define CACHELOT_VERSION_MINOR 0
#define CACHELOT_VERSION_PATCH 0
#define CACHELOT_VERSION_EXTRA ""
#define CACHELOT_VERSION_HASH "sim"
#define CACHELOT_VERSION_OS_NAME "Linux"
#define CACHELOT_VERSION_SHORT "v0.0.0"
#define CACHELOT_VERSION_FULL "Cachelot v0.0.0 (sim)"
#define CACHELOT_VERSION_NOTICE "sim"
#endif
''')

def build(flavour, out, jobs=8):
    """flavour: fast | asan | cost. Returns the path of the simulator binary."""
    os.makedirs(out, exist_ok=True)
    inc = os.path.join(out, "inc"); headers(inc)
    opt = {"fast": ["-O2", "-DNDEBUG"], "asan": ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address"], "cost": ["-O1", "-DNDEBUG", "-DSIM_COST"]}[flavour]
    meter = ["-fsanitize-coverage=trace-pc"] if flavour == "cost" else []   # the code under test reports each basic block
    common = ["-w", "-fPIC", "-DCACHELOT_PLATFORM_BITS=64", "-DHAVE_CONFIG_H=1", "-DBOOST_ALL_NO_LIB", "-I" + inc, "-I" + os.path.join(REPO, "src")]
    units = []
    for pat in ("src/cachelot/*.cpp", "src/server/*.cpp", "src/server/memcached/*.cpp"):
        for s in sorted(glob.glob(os.path.join(REPO, pat))):
            units.append((s, ["-std=gnu++11"] + opt + meter + common))
    for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
        std = "-std=gnu++11" if os.path.basename(s).startswith("adapter_") else "-std=gnu++17"
        o = opt if os.path.basename(s).startswith("adapter_") else [x if x != "-O2" else "-O1" for x in opt if x != "-DNDEBUG"]
        if os.path.basename(s) == "adapter_lib.cpp": o = o + meter
        units.append((s, [std] + o + common + ["-I" + os.path.join(VERIF, "sim")]))
    units.sort(key=lambda u: -os.path.getsize(u[0]) - (10**6 if u[0].endswith("main.cpp") else 0))
    objs = []
    def one(u):
        src, flags = u
        obj = os.path.join(out, re.sub(r"[^A-Za-z0-9]", "_", os.path.relpath(src, "/")) + ".o")
        r = subprocess.run(["g++", *flags, "-c", src, "-o", obj], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
        if src == os.path.join(REPO, "src/server/main.cpp"):
            subprocess.run(["objcopy", "--redefine-sym", "main=cachelotd_main", obj], check=True)
        return obj
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(one, units))
    exe = os.path.join(out, "sim_" + flavour)
    cmd = ["g++", *(["-fsanitize=address"] if flavour == "asan" else []), "-o", exe, *objs,
           *["-Wl,--wrap=" + w for w in WRAPS + (["memcpy", "memmove", "memset", "memcmp", "memchr"] if flavour == "cost" else [])],
           "-Wl,-Bstatic", "-lboost_program_options", "-lboost_system", "-Wl,-Bdynamic", "-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("linking failed:\n" + r.stderr[-4000:])
    return exe

if __name__ == "__main__":
    for fl in sys.argv[2:] or ["fast"]:
        print(build(fl, os.path.join(sys.argv[1], fl)))
