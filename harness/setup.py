"""Checks that the tools the checks need are present (everything is built per run from /repo)."""
import shutil, sys
missing = [t for t in ("go", "java", "javac", "gcc", "g++", "node", "python3", "dotnet") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("setup: ok")
