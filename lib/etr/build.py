"""Compiles generated driver programs against /repo's current working tree."""
import os, re, subprocess, concurrent.futures as cf

REPO = os.environ.get("ETR_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
DRIVER = os.path.normpath(os.path.join(HERE, "..", "..", "driver"))
ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all"]
BASE = ["g++", "-std=c++20", "-w", "-O0", "-g0", "-I", os.path.join(REPO, "include"), "-I", DRIVER]
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:"
           "alloc_dealloc_mismatch=1:max_allocation_size_mb=2000", LC_ALL="C")


class CompileError(Exception):
    def __init__(self, src, log):
        super().__init__(src)
        self.src, self.log = src, log


def compile_one(src, obj, flags, timeout=600):
    p = subprocess.run(BASE + flags + ["-c", src, "-o", obj], capture_output=True,
                       text=True, timeout=timeout)
    return p.returncode, p.stderr


def obj_of(src):
    return os.path.splitext(src)[0] + ".o"


def compile_all(sources, flags, jobs=8):
    """[(source, returncode, log)]"""
    with cf.ThreadPoolExecutor(jobs) as ex:
        return [(s, rc, log) for s, (rc, log) in
                zip(sources, ex.map(lambda s: compile_one(s, obj_of(s), flags), sources))]


def link(sources, out, flags):
    p = subprocess.run(["g++"] + flags + [obj_of(s) for s in sources] + ["-o", out],
                       capture_output=True, text=True)
    if p.returncode: raise CompileError(out, p.stderr)
    return out


def build(sources, out, flags, jobs=8):
    for s, rc, log in compile_all(sources, flags, jobs):
        if rc: raise CompileError(s, log)
    return link(sources, out, flags)


def error_lines(src, log):
    """line numbers of src at which the compiler's complaints originate"""
    name = re.escape(os.path.basename(src))
    return {int(m) for m in re.findall(r"(?:^|/)" + name + r":(\d+)", log, re.M)}
