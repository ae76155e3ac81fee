"""Nothing is prebuilt: every check extracts and compiles from /repo on its own.  This only confirms the tools."""
import shutil, sys
missing = [t for t in ("verus", "clang++", "objcopy") if not shutil.which(t)]
print("missing: " + ", ".join(missing) if missing else "tools present")
sys.exit(1 if missing else 0)
