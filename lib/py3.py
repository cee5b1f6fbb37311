"""The analysis package of the repository, translated to Python 3 from the files as they are now."""
import os, re, fcntl, warnings
from vlib import *


def translate():
    warnings.simplefilter("ignore")
    from lib2to3 import refactor
    pkg = os.path.join(BUILD, "py")
    dst = os.path.join(pkg, "gandalf", "analysis")
    os.makedirs(dst, exist_ok=True)
    tool = refactor.RefactoringTool(refactor.get_fixers_from_package("lib2to3.fixes"), {"print_function": False})
    with open(os.path.join(BUILD, ".pylock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        open(os.path.join(pkg, "gandalf", "__init__.py"), "w").close()
        for n in sorted(os.listdir(REPO + "/analysis")):
            if not n.endswith(".py") or n in ("cmd2.py", "gandalf_interpreter.py", "conf.py"):
                continue
            s = open(os.path.join(REPO, "analysis", n), encoding="utf-8").read() + "\n"
            s = re.sub(r"(?m)^[ ]*\t[ \t]*", lambda m: m[0].expandtabs(8), s)
            s = re.sub(r"(?m)^import (analysis)\.(\w+) as (\w+)", r"from \1 import \2 as \3", s)
            try:
                new = str(tool.refactor_string(s, os.path.join(REPO, "analysis", n)))
                compile(new, n, "exec")
            except Exception as e:
                raise CheckError("analysis/%s does not parse: %s" % (n, e))
            p = os.path.join(dst, n)
            if not os.path.exists(p) or open(p, encoding="utf-8").read() != new:
                with open(p, "w", encoding="utf-8") as f:
                    f.write(new)
    return pkg
