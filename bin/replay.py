#!/usr/bin/env python3
"""replay.py <file>: runs one recorded violation again against the current tree."""
import sys, os, json, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fzbuild as B
from plans import EXES
v = json.load(open(sys.argv[1]))
print(v["text"])
if "cmd" in v: sys.exit(subprocess.call(v["cmd"]))
exe = B.build_exe(v["variant"], v["exe"], **EXES[v["exe"]])
cmd = [exe, "--sel", v["sel"]] + v["args"] + (["--thorough"] if v["tier"] == "thorough" else []) + ["--replay", v["family"], str(v["lo"]), str(v["hi"])]
env = dict(os.environ, **v.get("env", {})); env.setdefault("ASAN_OPTIONS", "detect_leaks=0")
sys.exit(subprocess.call(cmd, env=env))
