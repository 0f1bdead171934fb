#!/usr/bin/env python3
"""Nothing is prebuilt: every check compiles its drivers from /repo's working tree.
This only verifies that the tools are there and that both kinds of driver link."""
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run  # noqa: E402

os.makedirs(os.path.join(run.HERE, "evidence"), exist_ok=True)
with tempfile.TemporaryDirectory() as wd:
    print("g++:", run.GXX, " clang++:", run.CLANG, " libFuzzer:", run.fuzz_rt() if run.CLANG else None)
    if not run.GXX or not run.bare_compiles(wd):
        print("the library does not compile here")
        sys.exit(1)
print("ready")
