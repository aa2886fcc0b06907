"""Nothing is prebuilt: every check builds what it needs from /repo.  Report the tools."""
import shutil, sys
missing = [t for t in ("gcc", "g++", "flex", "bison", "cbmc", "goto-cc", "goto-instrument") if not shutil.which(t)]
import z3
print("z3", z3.get_version_string(), "missing tools:", missing or "none")
