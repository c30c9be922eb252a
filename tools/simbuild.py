#!/usr/bin/env python3
"""Builds the simulator around the current sources of rscada/libmbus (REPO, default /repo)."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.path.join(VERIF, "build")

SEAM = """open open64 read write close isatty tcgetattr tcsetattr tcdrain tcflush tcsendbreak cfsetispeed cfsetospeed cfsetspeed
cfmakeraw ioctl fcntl poll select usleep sleep nanosleep getaddrinfo freeaddrinfo gai_strerror socket connect setsockopt getsockopt
shutdown signal sigaction send recv time gettimeofday clock_gettime malloc calloc realloc reallocarray free strdup strndup
asprintf vasprintf printf fprintf vprintf vfprintf dprintf puts putchar fputc putc fputs fwrite fflush perror fopen fread fgetc getc fgets getchar _IO_getc
fclose feof ferror clearerr rewind fseek ftell ungetc getline getdelim setvbuf setbuf setlinebuf sendto recvfrom readv writev ppoll pselect clock_nanosleep
exit _exit abort __assert_fail __stack_chk_fail fcntl64 fopen64 __strdup _IO_putc""".split()
PURE = set("""memcpy memmove memset memcmp memchr strlen strcpy strncpy strcat strncat strcmp strncmp strcasecmp strncasecmp strchr
strrchr strstr strspn strcspn strpbrk strtok strtok_r snprintf vsnprintf sprintf vsprintf sscanf __isoc99_sscanf __isoc23_sscanf
strtol strtoul strtoll strtoull strtod strtof atoi atol atof pow powf exp log log10 floor ceil round fabs ldexp ldexpf lround
getopt optarg optind opterr optopt strlcpy strlcat explicit_bzero strsignal gmtime gmtime_r strftime mktime timegm strerror strerror_r __errno_location __ctype_b_loc __ctype_toupper_loc __ctype_tolower_loc
toupper tolower isspace isdigit isxdigit isalpha isalnum isprint qsort bsearch abs labs stdout stderr stdin cfgetispeed cfgetospeed
__isoc23_strtol __isoc23_strtoul __isoc23_strtoll __isoc23_strtoull memmem stpcpy stpncpy memccpy mempcpy htons htonl ntohs ntohl
strnlen exp2 exp10 pow10 _GLOBAL_OFFSET_TABLE_ rand srand localtime localtime_r ctime ctime_r asctime asctime_r difftime tzset getenv setenv bzero bcopy index rindex
strtok_r strsep memrchr fabsf trunc fmod isnan isinf llabs lldiv ldiv div strtoimax strtoumax inet_ntop inet_pton
rint rintf lrint lrintf llrint llround lroundf roundf truncf floorf ceilf nearbyint modf modff frexp frexpf scalbn scalbnf scalbln logf log10f log2 log2f log1p expm1 expf exp2f sqrt sqrtf hypot fmodf fmax fmin fmaxf fminf copysign copysignf nan nanf strtold strtoq strtouq strcoll strxfrm strverscmp getopt_long getopt_long_only strcasestr strchrnul rawmemchr memfrob swab ffs ffsl a64l inet_addr inet_aton inet_ntoa isupper islower ispunct isgraph iscntrl isblank isascii toascii lfind lsearch hsearch atoll strnstr __xpg_strerror_r strerrorname_np strerrordesc_np sigemptyset sigfillset sigaddset sigdelset sigismember""".split())
CFLAGS = ("-std=gnu99 -g -O1 -fsanitize=address -fsanitize=bounds -fno-omit-frame-pointer -w -fcommon -fno-builtin-printf -fno-builtin-fprintf "
          "-U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -fno-stack-protector").split()
CXXFLAGS = "-std=c++17 -O1 -g1 -w -fno-builtin -fno-tree-loop-distribute-patterns -D_GNU_SOURCE".split()


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode:
        sys.stderr.write(" ".join(cmd) + "\n" + r.stdout)
        raise SystemExit(2)
    return r.stdout


def digest(files, extra=""):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(os.path.relpath(f, "/").encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def build(init="pattern", quiet=False):
    lib = sorted(glob.glob(REPO + "/mbus/*.c"))
    hdr = sorted(glob.glob(REPO + "/mbus/*.h") + glob.glob(REPO + "/bin/*.h"))
    tools = sorted(glob.glob(REPO + "/bin/*.c"))
    simc = sorted(glob.glob(SIM + "/*.cpp"))
    simh = sorted(glob.glob(SIM + "/*.h"))
    # one simulator per library header set and simulator source; one program per library source
    os.makedirs(BUILD, exist_ok=True)
    cflags = CFLAGS + ["-ftrivial-auto-var-init=" + init]
    d_all = digest(lib + hdr + tools + simc + simh + [os.path.abspath(__file__)], REPO + init)
    exe = os.path.join(BUILD, "sim-" + d_all)
    if os.path.exists(exe):
        return exe
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    if os.path.exists(exe):
        return exe
    work = tempfile.mkdtemp(prefix="work-", dir=BUILD)
    try:
        inc = os.path.join(work, "inc")
        os.makedirs(inc + "/cfg/sub")
        with open(inc + "/config.h", "w") as f:
            f.write('#define VERSION "0.9.0"\n#define PACKAGE_VERSION "0.9.0"\n#define PACKAGE "libmbus"\n'
                    '#define HAVE_STDINT_H 1\n#define HAVE_UNISTD_H 1\n#define HAVE_STRING_H 1\n#define HAVE_STDLIB_H 1\n')
        # mbus.c includes "../config.h": found through an include directory one level down
        shutil.copy(inc + "/config.h", inc + "/cfg/config.h")
        redef = os.path.join(work, "redef")
        with open(redef, "w") as f:
            for s in SEAM:
                f.write("%s sim_%s\n" % (s, s))
        objs = []
        jobs = []

        hdrdig = digest(hdr + [os.path.abspath(__file__)], REPO)

        def cc(src, obj, entry, cflags=cflags):
            kept = os.path.join(BUILD, "c-%s.o" % digest([src], hdrdig + " ".join(cflags) + str(entry)))
            if os.path.exists(kept):
                shutil.copy(kept, obj)
                return
            compile_c(src, obj, entry, cflags)
            shutil.copy(obj, kept + ".%d" % os.getpid())
            os.rename(kept + ".%d" % os.getpid(), kept)

        def compile_c(src, obj, entry, cflags):
            sh(["gcc", *cflags, "-I" + REPO, "-I" + REPO + "/mbus", "-I" + inc + "/cfg/sub", "-I" + inc, "-c", src, "-o", obj + ".raw"])
            cmd = ["objcopy", "--redefine-syms=" + redef]
            if entry:
                cmd += ["--redefine-sym", "main=" + entry]
            for sec in (".data", ".data.rel", ".data.rel.local"):
                cmd += ["--rename-section", sec + "=libdata,alloc,load,data,contents"]
            cmd += ["--rename-section", ".bss=libbss,alloc,load,data,contents", "--set-section-flags", ".bss=alloc,load,contents"]
            sh(cmd + [obj + ".raw", obj])
            if entry:
                sh(["objcopy", "--keep-global-symbol=" + entry, obj])

        def cxx(src, obj):
            sh(["g++", *CXXFLAGS, "-I" + REPO, "-I" + REPO + "/mbus", "-I" + SIM, "-c", src, "-o", obj])

        with ThreadPoolExecutor(8) as ex:
            fs = []
            simdig = digest(simh + hdr + [os.path.abspath(__file__)], REPO)
            for s in simc:
                o = os.path.join(BUILD, "o-%s-%s.o" % (os.path.basename(s)[:-4], digest([s], simdig)))
                objs.append(o)
                if not os.path.exists(o):
                    t = os.path.join(work, os.path.basename(o))
                    fs.append(ex.submit(lambda s=s, t=t, o=o: (cxx(s, t), os.rename(t, o))))
            libobjs = []
            for s in lib:
                o = os.path.join(work, "lib-" + os.path.basename(s)[:-2] + ".o")
                libobjs.append(o)
                fs.append(ex.submit(cc, s, o, None))
            for s in tools:
                n = os.path.basename(s)[:-2]
                o = os.path.join(work, "tool-" + n + ".o")
                libobjs.append(o)
                fs.append(ex.submit(cc, s, o, "tool_" + n.replace("-", "_")))
            zobjs = []
            for s in lib:                                # a second library with zeroed locals
                o = os.path.join(work, "zlib-" + os.path.basename(s)[:-2] + ".o")
                zobjs.append(o)
                fs.append(ex.submit(cc, s, o, None, CFLAGS + ["-ftrivial-auto-var-init=zero"]))
            for f in fs:
                f.result()
            syms = set()
            for l in sh(["nm", "-g", "--defined-only", *zobjs]).splitlines():
                if len(l.split()) == 3:
                    syms.add(l.split()[2])
            zdef = os.path.join(work, "zdef")
            with open(zdef, "w") as f:
                for x in sorted(syms | {"hostile_session"}):
                    f.write("%s z_%s\n" % (x, x))
            for o in list(zobjs):
                sh(["objcopy", "--redefine-syms=" + zdef, o])
            for o in [x for x in objs if os.path.basename(x).startswith("o-z_")]:
                z = os.path.join(work, "z" + os.path.basename(o))
                sh(["objcopy", "--redefine-syms=" + zdef, o, z])
                zobjs.append(z)
            libobjs += zobjs
        # tools that are gone are reported when used: weak stand-ins come from the simulator
        und = sh(["nm", "-u", *libobjs])
        names = sorted({l.split()[-1] for l in und.splitlines() if " U " in l or l.strip().startswith("U ")})
        odd = [n for n in names if not n.startswith(("sim_", "z_mbus_", "__asan", "__ubsan", "mbus_")) and n not in PURE]
        with open(os.path.join(BUILD, "unmodelled"), "w") as f:
            f.write("\n".join(odd))
        sh(["g++", "-fsanitize=address", *objs, *libobjs, "-lm", "-o", exe + ".tmp"])
        os.rename(exe + ".tmp", exe)
        # keep the build folder small
        for old in glob.glob(BUILD + "/sim-*"):
            if old != exe and os.path.getmtime(old) < os.path.getmtime(exe) - 600:
                os.unlink(old)
        for old in glob.glob(BUILD + "/c-*") + glob.glob(BUILD + "/o-*"):
            if os.path.getmtime(old) < os.path.getmtime(exe) - 24 * 3600:
                os.unlink(old)
        return exe
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    print(build(*(sys.argv[1:2])))
