"""Checks build everything themselves; this only verifies that the tools they need are here."""
import shutil, sys
miss = [t for t in ("g++", "make", "perl", "indent") if not shutil.which(t)]
if miss:
    sys.exit("missing tools: " + " ".join(miss))
print("ok")
