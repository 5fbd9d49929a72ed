#!/opt/venv/bin/python
"""./run.py C01 [--tier quick|thorough] [--only harness,harness]"""
import os
import sys

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("SYMX_REEXEC") != "1":
    os.environ["SYMX_REEXEC"] = "1"
    os.execv(sys.executable, [sys.executable, *sys.argv])
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.chdir(os.path.dirname(os.path.abspath(__file__)))
from symx.runner import main  # noqa: E402

rc = main(sys.argv[1:])
sys.stdout.flush()
os._exit(rc)
