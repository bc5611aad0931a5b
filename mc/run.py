"""python -m mc.run C03 [quick|thorough]   or   python -m mc.run replay FILE"""
import importlib
import json
import os
import sys

PYTHON = "/opt/venv/bin/python"


def main(argv):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    want = str(seed % 4294967295)
    if os.environ.get("PYTHONHASHSEED") != want or os.environ.get("PYTHONDONTWRITEBYTECODE") != "1":
        env = dict(os.environ, PYTHONHASHSEED=want, PYTHONDONTWRITEBYTECODE="1")
        exe = PYTHON if os.path.exists(PYTHON) else sys.executable
        os.execve(exe, [exe, "-m", "mc.run"] + argv, env)
    from . import engine, registry
    if argv[0] == "replay":
        prop = json.load(open(argv[1]))["property"]
        return engine.replay(registry.get(prop), argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    return engine.execute(registry.get(argv[0]), tier, seed)


if __name__ == "__main__":
    os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.exit(main(sys.argv[1:]))
