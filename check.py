#!/opt/venv/bin/python
"""check.py <property id> [--replay file]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
if __name__ == "__main__":
    from mon import registry
    prop = sys.argv[1]
    rep = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    sys.stdout.flush()
    code = registry.main(prop, rep)
    sys.stdout.flush()
    sys.exit(code)
