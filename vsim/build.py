"""Build glum's Cython extensions from /repo's current working tree.

Nothing is written below /repo.  Output goes to /verif/.build/<variant>-<hash>,
keyed by the content of every .pyx/.pxd/.h the extensions are made from, so a
changed kernel is always recompiled and an unchanged one is reused.

variant "plain": g++ -O1 -fopenmp, real libgomp.
variant "omp":   g++ -O1 -fopenmp -fsanitize=thread (instrumentation only); the
                 __tsan_*/GOMP_*/omp_* symbols are resolved by the simulated
                 OpenMP runtime vsim/omp/simgomp.cpp the extensions are linked to.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
from pathlib import Path

REPO = Path(os.environ.get("VSIM_REPO", "/repo"))
VERIF = Path(__file__).resolve().parent.parent
OUT = VERIF / ".build"
DIRECTIVES = (
    "boundscheck=False wraparound=False initializedcheck=False nonecheck=False "
    "cdivision=True cpow=True legacy_implicit_noexcept=True"
).split()


class BuildError(RuntimeError):
    pass


def _sources():
    root = REPO / "src" / "glum"
    return sorted(
        p
        for p in root.rglob("*")
        if p.suffix in (".pyx", ".pxd", ".pxi", ".h", ".hpp") and p.is_file()
    )


def _key(variant):
    h = hashlib.sha256()
    h.update(variant.encode())
    h.update(sys.version.encode())
    for p in _sources():
        h.update(str(p.relative_to(REPO)).encode())
        h.update(p.read_bytes())
    extra = [Path(__file__)]
    if variant == "omp":
        extra += sorted((VERIF / "vsim" / "omp").glob("*.cpp"))
    for p in extra:
        h.update(p.read_bytes())
    return h.hexdigest()[:24]


def _run(procs):
    for cmd, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            for _, q in procs:
                if q.poll() is None:
                    q.kill()
            raise BuildError(" ".join(map(str, cmd)) + "\n" + out[-4000:])


def _start(cmd, cwd):
    return cmd, subprocess.Popen(
        [str(c) for c in cmd],
        cwd=cwd,
        stdout=subprocess.PIPE,
        stderr=subprocess.STDOUT,
        text=True,
    )


def build(variant="plain"):
    """Return the directory that holds the built extensions of `variant`."""
    import numpy as np

    OUT.mkdir(exist_ok=True)
    key = _key(variant)
    dest = OUT / f"{variant}-{key}"
    if (dest / "ok").exists():
        return dest
    with open(OUT / f"lock-{variant}", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if (dest / "ok").exists():
            return dest
        for old in OUT.glob(f"{variant}-*"):
            if old != dest:
                shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        work = dest / "work"
        work.mkdir(parents=True)
        # keep the package layout so that cimports between extensions resolve
        pkg = work / "glum"
        pkg.mkdir()
        for p in _sources():
            tgt = pkg / p.relative_to(REPO / "src" / "glum")
            tgt.parent.mkdir(parents=True, exist_ok=True)
            shutil.copyfile(p, tgt)
        (pkg / "__init__.py").touch()
        pyxs = sorted(pkg.rglob("*.pyx"))
        procs = []
        for p in pyxs:
            cmd = [sys.executable, "-m", "cython", "-3", "--cplus"]
            for d in DIRECTIVES:
                cmd += ["-X", d]
            procs.append(_start(cmd + [p], work))
        _run(procs)
        inc = [
            "-I" + sysconfig.get_paths()["include"],
            "-I" + np.get_include(),
            "-I" + str(REPO / "src" / "glum"),
        ]
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        flags = ["-shared", "-fPIC", "-O1", "-w", "-fopenmp", "-std=c++17"]
        procs = []
        if variant == "omp":
            # -shared with -fsanitize=thread would pull in libtsan: compile and
            # link separately so that the simulated runtime provides the symbols
            objs = []
            for p in pyxs:
                o = p.with_suffix(".o")
                objs.append((p, o))
                procs.append(
                    _start(
                        ["g++", "-c", "-fPIC", "-O1", "-w", "-fopenmp",
                         "-fsanitize=thread", "-std=c++17", *inc,
                         p.with_suffix(".cpp"), "-o", o],
                        work,
                    )
                )
            rt = dest / "simgomp.so"
            procs.append(
                _start(
                    ["g++", "-shared", "-fPIC", "-O2", "-w", "-std=c++17",
                     "-Wl,-soname,simgomp.so",
                     VERIF / "vsim" / "omp" / "simgomp.cpp", "-o", rt],
                    work,
                )
            )
            _run(procs)
            procs = [
                _start(
                    ["g++", "-shared", "-fPIC", o, "-o", dest / (p.stem + suffix),
                     "-Wl,--no-as-needed", rt, "-Wl,-rpath,$ORIGIN",
                     *(f"-Wl,--wrap={f}" for f in ("malloc", "calloc", "realloc", "_Znwm", "_Znam"))],
                    work,
                )
                for p, o in objs
            ]
            _run(procs)
        else:
            for p in pyxs:
                procs.append(
                    _start(
                        ["g++", *flags, *inc, p.with_suffix(".cpp"), "-o",
                         dest / (p.stem + suffix)],
                        work,
                    )
                )
            _run(procs)
        shutil.rmtree(work, ignore_errors=True)
        (dest / "ok").touch()
    return dest


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain", "omp"]:
        print(build(v))
