"""Puts a call to symx_sched_point() before each operation of the IR module at which the
executor may switch threads (the rule is `is_point` in symx/src/ir.rs)."""
import re
import sys

OUT = ("3std", "7harness", "getrandom", "scoped_threadpool")


def is_point(s):
    if "cmpxchg" in s:
        return re.match(r"\s*(%[\w.$-]+ = )?cmpxchg ", s) is not None
    if " atomic" not in s or any(x in s for x in OUT):
        return False
    if "atomicrmw" in s:
        return not ("atomicrmw add" in s or "atomicrmw sub" in s) and (", i64 " in s or ", i8 " in s)
    return any(x in s for x in ("load atomic i8,", "load atomic i64,", "store atomic i8 ", "store atomic i64 "))


def main(src, dst):
    with open(src) as f, open(dst, "w") as o:
        declared = False
        for line in f:
            if line.startswith("declare ") and not declared:
                o.write("declare void @symx_sched_point()\ndeclare void @symx_pause()\n")
                declared = True
            if line.startswith("  ") and is_point(line):
                o.write("  call void @symx_sched_point()\n")
            if "@llvm.x86.sse2.pause()" in line and "declare" not in line:
                line = line.replace("@llvm.x86.sse2.pause()", "@symx_pause()")
            o.write(line)


main(sys.argv[1], sys.argv[2])
