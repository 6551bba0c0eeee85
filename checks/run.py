"""python checks/run.py P01 [quick|thorough] [--replay file]   (use bin/check, which picks the interpreter)"""
import importlib, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
import vlib
pid = sys.argv[1]
vlib.main(pid, importlib.import_module(pid.lower()), sys.argv[2:])
