#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] | check.py replay <file> | check.py determinism [props] | check.py hashes <property> <count>"""
import os
import sys

VENV = "/opt/venv/bin/python"
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath("/opt/venv") and not os.environ.get("VERIF_REEXEC"):
    os.environ["VERIF_REEXEC"] = "1"
    os.execv(VENV, [VENV] + sys.argv)
for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
if "PYTHONHASHSEED" not in os.environ:
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.realpath(__file__)), "sim"))


def main():
    import frame

    if sys.argv[1] == "replay":
        return frame.replay_file(sys.argv[2])
    if sys.argv[1] == "determinism":
        return frame.determinism(sys.argv[2:] or ["C%02d" % i for i in range(1, 20)], int(os.environ.get("VERIF_RUNS", "12")))
    if sys.argv[1] == "hashes":
        import json

        print(json.dumps(frame.hashes(sys.argv[2], int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[3]))))
        return 0
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return frame.check(prop, tier, seed)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
