"""Monitor for workers that run under valgrind's memcheck (variant "memcheck").

memcheck follows every byte of the process, compiled code of any origin included, and reports invalid
accesses and decisions that hang on uninitialised values.  Reports count only if the project's
modules take part (in the stack, or as the origin of the uninitialised value): the interpreter's own
are not this project's.
"""
import ctypes
import os
import re

MODULES = re.compile(r"\(in [^)]*/sacf/[^/)]*\.so\)|\((?:Correlator|DataStructure|correlator_bindings|"
                     r"datastructure_bindings)\.(?:cpp|h):\d+\)")


class Memcheck(object):
    def __init__(self, m):
        self.m = m
        self.lib = ctypes.CDLL(os.environ["VERIF_MEMCHECK_LIB"])
        self.log = os.environ["VERIF_MEMCHECK_LOG"]
        self.lib.vg_errors.restype = ctypes.c_ulong
        if not self.lib.vg_running():
            raise RuntimeError("not running under valgrind")
        self.pos = 0
        self.errors = self.lib.vg_errors()
        self.foreign = 0
        self.read()

    def read(self):
        with open(self.log, errors="replace") as f:
            f.seek(self.pos)
            text = f.read()
            self.pos = f.tell()
        return text

    def check(self):
        self.m.count("cases_under_memcheck")
        n = self.lib.vg_errors()
        if n == self.errors:
            return
        self.errors = n
        # blocks are separated by lines that hold nothing but the process id
        for block in re.split(r"(?m)^==\d+== *$", self.read()):
            if " at 0x" not in block:
                continue
            if MODULES.search(block):
                lines = [re.sub(r"^==\d+== ?", "", l) for l in block.strip().splitlines()]
                self.m.violate("memcheck: " + lines[0].strip(), report="\n".join(lines[:40])[:600],
                               frames=[l.strip() for l in lines if MODULES.search(l)][:6])
            else:
                self.m.count("memcheck_reports_elsewhere")


def touch(x, room=400):
    """Decides something on the numbers in x (on some of very many), so that an undefined one is reported."""
    n = 0
    if isinstance(x, (list, tuple)):
        k = len(x)
        # both ends, and every few in between
        some = x if k <= room else list(x[:room // 4]) + list(x[::k // (room // 4)]) + list(x[-room // 4:])
        for a in some:
            n += touch(a, max(8, room // max(1, len(some))) if isinstance(a, list) else 1)
    elif isinstance(x, (int, float)):
        if x > 0:
            n += 1
        elif x < 0:
            n += 2
    return n
