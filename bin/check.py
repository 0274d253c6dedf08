#!/usr/bin/python3
"""usage: bin/check.py C01 [--tier quick|thorough] [--seed N]"""
import importlib.util, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import vf
pid = sys.argv[1]
spec = importlib.util.spec_from_file_location(pid, os.path.join(V, "checks", pid + ".py"))
m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
vf.main(pid, m.run)
