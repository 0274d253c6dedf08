#!/usr/bin/python3
"""Checks the tools the framework needs; every check builds what it needs from /repo by itself."""
import os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
miss = [t for t in ("java", "g++") if not shutil.which(t)] + \
       [p for p in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar") if not os.path.exists(p)]
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
print("missing:", miss) if miss else print("setup ok")
sys.exit(1 if miss else 0)
