"""Builds the simulator around the library as it is in /repo's working tree."""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("ARGUS_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

SEAMS = """malloc calloc realloc reallocarray free strdup strndup asprintf vasprintf getenv secure_getenv setenv unsetenv putenv clearenv
exit _exit abort printf fprintf vprintf vfprintf puts putchar fputs fputc putc fwrite fflush perror dprintf
vdprintf write fileno ferror clearerr setvbuf setbuf pipe pipe2 dup dup2 dup3 close read fcntl open isatty
snprintf vsnprintf poll open64 fcntl64 pcre2_compile_8""".split()
# What the library may use without a seam: pure functions of their arguments
PURE = """memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strcpy strncpy strcat
strncat strchr strrchr strstr strtok strtok_r strpbrk strspn strcspn sprintf sscanf strtol strtoll strtoul
strtoull strtof strtod strtold atoi atol atoll atof tolower toupper isdigit isalpha isalnum isspace isupper islower isprint
__ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc qsort bsearch abs labs llabs fabs strerror __errno_location stdout
stderr stdin __isoc99_sscanf __isoc23_strtol __isoc23_strtoll __isoc23_strtoul __isoc23_strtoull __isoc23_sscanf __stack_chk_fail
__assert_fail""".split()
ARGUS_FLAGS = ["-Og", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds",
               "-fsanitize-coverage=trace-pc", "-fno-builtin", "-U_FORTIFY_SOURCE", "-ftrivial-auto-var-init=pattern",
               "-fno-pie", "-w", "-DARGUS_REGEX", "-std=gnu11"]
BRIDGE_FLAGS = ["-O1", "-g", "-fsanitize=address", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fno-pie", "-w", "-DARGUS_REGEX", "-std=gnu11"]
SIM_FLAGS = ["-std=c++17", "-O2", "-g", "-fno-pie", "-Wall", "-Wextra"]


class BuildError(Exception):
    pass


def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:6]) + " ...\n" + p.stdout[-4000:])
    return p.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def library_files():
    src = sorted(glob.glob(REPO + "/source/**/*.c", recursive=True))
    inc = glob.glob(REPO + "/includes/**/*.h", recursive=True) + glob.glob(REPO + "/source/**/*.h", recursive=True)
    return src, inc


def build():
    """Path of the simulator and facts about the build."""
    src, inc = library_files()
    simf = sorted(glob.glob(SIM + "/*.cpp") + glob.glob(SIM + "/*.h") + [SIM + "/bridge.c"])
    key = digest(src + inc + simf + [os.path.abspath(__file__)])
    d = os.path.join(OUT, key)
    exe = os.path.join(d, "simargus")
    if not os.path.exists(exe):
        _build(d, exe, src, inc, simf)
    facts = {}
    with open(os.path.join(d, "facts")) as f:
        for line in f:
            k, _, v = line.rstrip("\n").partition("=")
            facts[k] = v
    return exe, facts


def _build(d, exe, src, inc, simf):
    os.makedirs(d, exist_ok=True)
    hkey = digest([f for f in simf if not f.endswith("bridge.c")], " ".join(SIM_FLAGS))
    hd = os.path.join(OUT, "harness-" + hkey)
    os.makedirs(hd, exist_ok=True)
    includes = ["-I" + REPO + "/includes", "-I" + REPO + "/source"]
    jobs, objs, hobjs = [], [], []
    for i, s in enumerate(src):
        o = os.path.join(d, "a%d.o" % i)
        objs.append(o)
        jobs.append(["gcc"] + ARGUS_FLAGS + includes + ["-c", s, "-o", o])
    bo = os.path.join(d, "bridge.o")
    jobs.append(["gcc"] + BRIDGE_FLAGS + includes + ["-I" + SIM, "-c", SIM + "/bridge.c", "-o", bo])
    for s in simf:
        if s.endswith(".cpp"):
            o = os.path.join(hd, os.path.basename(s) + ".o")
            hobjs.append(o)
            if not os.path.exists(o):
                jobs.insert(0, ["g++"] + SIM_FLAGS + ["-c", s, "-o", o + ".tmp"])

    def one(cmd):
        run(cmd)
        if cmd[-1].endswith(".tmp"):
            os.rename(cmd[-1], cmd[-1][:-4])

    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for f in [ex.submit(one, j) for j in jobs]:
            f.result()
    lib = os.path.join(d, "argus.o")
    run(["ld", "-r", "-o", lib] + objs)
    redefine = []
    for s in SEAMS:
        redefine += ["--redefine-sym", "%s=sim_%s" % (s, s)]
    sections = []
    for line in run(["objdump", "-h", "-w", lib]).splitlines():
        f = line.split()
        if len(f) > 2 and f[0].isdigit():
            n = f[1]
            if n == ".data" or (n.startswith(".data.") and not n.startswith(".data.rel.ro")):
                sections.append((n, "argus_data"))
            elif n == ".bss" or n.startswith(".bss."):
                sections.append((n, "argus_bss"))
    und = [l.split()[-1] for l in run(["nm", "-u", lib]).splitlines() if l.strip()]
    for n, to in sections:
        redefine += ["--rename-section", "%s=%s" % (n, to)]
    run(["objcopy"] + redefine + [lib])
    run(["objcopy"] + [x for x in redefine if not x.startswith("--rename") and "argus_" not in x] + [bo])
    points = run(["objdump", "-dr", "--no-show-raw-insn", lib]).count("__sanitizer_cov_trace_pc")
    run(["g++", "-fsanitize=address,bounds", "-no-pie", "-rdynamic", "-o", exe + ".tmp"] + hobjs + [bo, lib, "-lpcre2-8", "-lpthread"])
    variables = []  # the library's own writable variables, which the scheduler watches
    for line in run(["nm", "-n", "-S", lib]).splitlines():
        f = line.split()
        if len(f) == 4 and f[2] in "dDbB":
            variables.append(f[3])
    watched = set(variables)
    table, bounds = [], {}
    for line in run(["nm", "-n", "-S", exe + ".tmp"]).splitlines():
        f = line.split()
        if f[-1] in ("__start_argus_data", "__stop_argus_data", "__start_argus_bss", "__stop_argus_bss"):
            bounds[f[-1]] = int(f[0], 16)
        elif len(f) == 4 and f[2] in "dDbB" and f[3] in watched:
            table.append((int(f[0], 16), int(f[1], 16)))
    inside = [(a, n) for a, n in table if any(
        bounds.get("__start_argus_" + k, 0) <= a < bounds.get("__stop_argus_" + k, 0) for k in ("data", "bss"))]
    with open(os.path.join(d, "variables"), "w") as f:
        f.write("".join("%x %x\n" % x for x in inside))
    unknown = [u for u in und if u not in SEAMS and u not in PURE and not u.startswith(("__asan", "__ubsan", "__sanitizer", "pcre2_", "_GLOBAL"))]
    with open(os.path.join(d, "facts"), "w") as f:
        f.write("seams_used=%s\n" % " ".join(sorted(u for u in und if u in SEAMS)))
        f.write("without_seam=%s\n" % " ".join(sorted(unknown)))
        f.write("blocks=%d\n" % points)
        f.write("sources=%d\n" % len(src))
    for o in objs + [lib]:
        os.unlink(o)
    os.rename(exe + ".tmp", exe)


def prune(keep):
    """Builds of earlier trees are of no use."""
    if not os.path.isdir(OUT):
        return
    for n in os.listdir(OUT):
        p = os.path.join(OUT, n)
        if os.path.isdir(p) and not n.startswith("harness-") and n != keep and len(n) == 20:
            shutil.rmtree(p, ignore_errors=True)


if __name__ == "__main__":
    try:
        print(build())
    except BuildError as e:
        print(e)
        sys.exit(2)
