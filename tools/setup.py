# Nothing is prebuilt: every check compiles what it needs from /repo's current tree.
import shutil, sys
for t in ("g++", "python3"):
    if not shutil.which(t): sys.exit("missing tool: " + t)
