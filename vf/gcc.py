"""gcc as an oracle."""
import os
import subprocess

from .core import own_dir


class OracleError(Exception):
    pass


def cpp(text, *opts, ok=True):
    """Preprocessed text (gcc -E -P)."""
    r = subprocess.run(["gcc", "-E", "-P", "-undef", "-nostdinc", "-w", "-x", "c", *opts, "-"],
                       input=text, capture_output=True, text=True)
    if ok and r.returncode:
        raise OracleError("gcc -E failed: " + r.stderr[:2000])
    return r.stdout


def run(source, *opts, compile_only=False):
    """Compile and run a C program, return its stdout."""
    d = own_dir()
    src, exe = os.path.join(d, "prog.c"), os.path.join(d, "prog")
    with open(src, "w") as f:
        f.write(source)
    r = subprocess.run(["gcc", "-w", "-O0", "-o", exe, src, *opts], capture_output=True, text=True)
    if r.returncode:
        raise OracleError("gcc failed: " + r.stderr[:3000])
    r = subprocess.run([exe], capture_output=True, text=True)
    if r.returncode:
        raise OracleError("oracle program failed: %d" % r.returncode)
    return r.stdout


def compiles(source, *opts):
    r = subprocess.run(["gcc", "-w", "-fsyntax-only", "-x", "c", *opts, "-"], input=source, capture_output=True,
                       text=True)
    return r.returncode == 0, r.stderr


def shared(source, path, *opts):
    src = path + ".c"
    with open(src, "w") as f:
        f.write(source)
    r = subprocess.run(["gcc", "-w", "-O0", "-shared", "-fPIC", "-o", path, src, *opts], capture_output=True, text=True)
    if r.returncode:
        raise OracleError("gcc failed: " + r.stderr[:3000])
    return path
