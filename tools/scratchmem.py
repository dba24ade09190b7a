"""tools/scratchmem.py FILE.cpp: as scratch.py, in the memory checking build."""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check, checks
f = sys.argv[1]
checks.CHECKS["XX"] = dict(checks.CHECKS["C28"], harness=[os.path.abspath(f)], parts=[], parts_thorough=[])
exe = check.build(checks.CHECKS["XX"]) if check.build.__code__.co_argcount == 1 else check.build("XX", checks.CHECKS["XX"])
exe = exe[0] if isinstance(exe, tuple) else exe
if os.path.dirname(exe).endswith("harness"):
    n = os.path.join(os.path.dirname(check.__file__), "build", os.path.basename(exe)); os.replace(exe, n); exe = n
sys.exit(subprocess.call([exe, "--memory"] + sys.argv[2:]))
