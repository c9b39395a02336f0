"""Build and run harnesses against /repo, collect monitor reports, decide."""
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, "build")
JOBS = str(os.cpu_count() or 8)


class CheckError(Exception):
    """The check could not give an answer."""


def env_for_build():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_MAXSIZE"] = "3G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_SLOPPINESS"] = "pch_defines,time_macros"
    return e


SAN_FLAGS = {
    "asan": "-fsanitize=address,undefined -fno-sanitize-recover=all -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -w",
    "none": "-D_GLIBCXX_ASSERTIONS -w",
}


def configure(kind, san):
    d = os.path.join(BUILD, "%s-%s" % (kind, san))
    os.makedirs(d, exist_ok=True)
    petsc = "/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-" + kind
    slepc = "/usr/lib/slepcdir/slepc3.19/x86_64-linux-gnu-" + kind
    e = env_for_build()
    e["PKG_CONFIG_PATH"] = "%s/lib/pkgconfig:%s/lib/pkgconfig" % (petsc, slepc)
    cmd = ["cmake", "-S", REPO, "-B", d, "-G", "Ninja",
           "-DCMAKE_C_COMPILER=gcc", "-DCMAKE_CXX_COMPILER=g++",
           "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
           "-DCMAKE_CXX_FLAGS=" + SAN_FLAGS[san],
           "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=" + ("-O1 -g1" if san != "none" else "-O2 -g1"),
           "-DENABLE_TESTING=OFF", "-DhpGEM_ENFORCE_ASSERTS=ON",
           "-DhpGEM_USE_MPI=ON", "-DhpGEM_USE_METIS=ON",
           "-DhpGEM_USE_COMPLEX_PETSC=ON" if kind == "complex" else "-DhpGEM_USE_PETSC=ON",
           "-DhpGEM_USE_SLEPC=ON", "-DPETSC_DIR=" + petsc, "-DSLEPC_DIR=" + slepc,
           "-DPETSc_LIBRARY=%s/lib/libpetsc_%s.so" % (petsc, kind),
           "-DSLEPc_LIBRARY=%s/lib/libslepc_%s.so" % (slepc, kind),
           "-DCMAKE_PROJECT_INCLUDE=" + os.path.join(VERIF, "harness", "inject.cmake")]
    if shutil.which("ccache"):
        cmd.append("-DCMAKE_CXX_COMPILER_LAUNCHER=ccache")
    p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("configure failed:\n" + p.stdout[-4000:])
    return d


def build(kind, san, targets):
    d = configure(kind, san)
    p = subprocess.run(["ninja", "-C", d, "-j", JOBS] + list(targets), env=env_for_build(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("build failed:\n" + p.stdout[-6000:])
    return d


RUN_ENV = {
    "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
    "OMPI_MCA_btl": "self,vader", "OMPI_MCA_btl_vader_single_copy_mechanism": "none",
    "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_mpi_yield_when_idle": "1",
    "OMPI_MCA_plm": "isolated", "OMPI_MCA_rmaps_base_no_schedule_local": "0",
    "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:allocator_may_return_null=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=77",
}


def crash_key(text):
    """A stable name for an abnormal end: sanitizer kind + innermost /repo frame."""
    m = re.search(r"ERROR: AddressSanitizer: ([\w\-]+)", text)
    kind = None
    if m:
        kind = "asan-" + m.group(1)
    else:
        m = re.search(r"runtime error: (.*)", text)
        if m:
            kind = "ubsan-" + re.sub(r"0x[0-9a-f]+|-?\d+", "#", m.group(1))[:80]
        elif "Assertion" in text and "glibcxx" in text.lower() or "__glibcxx_assert" in text or re.search(r"Error: .*stl|: Assertion '", text):
            kind = "stl-assertion"
        elif "std::length_error" in text or "terminate called" in text:
            kind = "terminate"
    where = ""
    for fr in re.finditer(r"#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?)(?::\d+)*(?:\s|$)", text):
        if fr.group(2).startswith(REPO + "/"):
            where = os.path.relpath(fr.group(2), REPO)
            break
    return (kind or "abnormal-end") + ("@" + where if where else "")


def kill_tree(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def run_once(cmd, cwd, timeout, extra_env=None):
    e = dict(os.environ)
    e.update(RUN_ENV)
    e.update(extra_env or {})
    e["TMPDIR"] = cwd
    outp, errp = os.path.join(cwd, "stdout"), os.path.join(cwd, "stderr")
    with open(outp, "wb") as fo, open(errp, "wb") as fe:
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=fo, stderr=fe, stdin=subprocess.DEVNULL,
                             start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            kill_tree(p)
            p.wait()
            rc, hung = -9, True
        kill_tree(p)
    text = open(errp, errors="replace").read()[-20000:] + "\n" + open(outp, errors="replace").read()[-5000:]
    return rc, hung, text


class Job:
    """One monitored execution: harness binary, arguments, number of processes."""

    def __init__(self, name, binary, args=(), np=0, timeout=300, weight=1):
        self.name, self.binary, self.args, self.np, self.timeout, self.weight = name, binary, list(args), np, timeout, weight

    def command(self, builddir, out, scratch, seed, tier):
        base = [os.path.join(builddir, "vf", self.binary), "--vf-seed=%d" % seed, "--vf-tier=" + tier,
                "--vf-out=" + out, "--vf-scratch=" + scratch]
        if self.np:
            base.append("--vf-ranked=1")
            return ["mpirun", "--oversubscribe", "--bind-to", "none", "-np", str(self.np)] + base + self.args
        return base + self.args


def run_job(job, builddir, workdir, seed, tier):
    """Returns (reports, crash) ; crash = None or dict(key, detail, case)."""
    attempts = 0
    while True:
        attempts += 1
        wd = os.path.join(workdir, job.name + ("" if attempts == 1 else "-retry%d" % (attempts - 1)))
        shutil.rmtree(wd, ignore_errors=True)
        os.makedirs(wd)
        out = os.path.join(wd, "report.json")
        cmd = job.command(builddir, out, wd, seed, tier)
        t0 = time.time()
        rc, hung, text = run_once(cmd, wd, job.timeout)
        files = sorted(f for f in glob.glob(out + "*") if not f.endswith((".cur", ".tmp")))
        reports = [json.load(open(f)) for f in files]
        want = max(1, job.np)
        complete = len(reports) == want and all(r["finished"] for r in reports)
        cur = " | ".join(open(f, errors="replace").read().strip()[:600] for f in sorted(glob.glob(out + "*.cur")))
        info = {"job": job.name, "cmd": cmd, "rc": rc, "seconds": round(time.time() - t0, 2), "case": cur}
        if complete and rc in (0, 3) or complete and job.np and not hung:
            return reports, None, info
        if hung:
            if attempts < 2:
                continue
            return reports, {"key": "no-progress", "detail": "still running after %d s (twice): %s" % (job.timeout, text[-1500:]), "case": cur}, info
        if re.search(r"mpirun was unable|There are not enough slots|ORTE was unable|orte_init failed|PMIx.*failed|unable to launch", text) and not re.search(r"AddressSanitizer|runtime error", text):
            if attempts < 3:
                time.sleep(1)
                continue
            raise CheckError("MPI launch failed: " + text[-2000:])
        if (rc == 137 or rc == -9) and "AddressSanitizer" not in text:
            if attempts < 2:
                continue
            raise CheckError("process killed from outside: " + text[-1500:])
        return reports, {"key": crash_key(text), "detail": text[-3500:], "case": cur}, info


def load_known():
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        return json.load(f)["findings"]


def tree_id():
    p = subprocess.run(["git", "-C", REPO, "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True)
    q = subprocess.run(["git", "-C", REPO, "diff", "HEAD"], stdout=subprocess.PIPE)
    return p.stdout.strip() + "+" + hashlib.sha256(q.stdout).hexdigest()[:12]
