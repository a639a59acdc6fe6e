#!/usr/bin/env python3
"""setup_cmd: checks that the tools are there and compiles the Java part."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
core.java_classes()
for c in (["g++", "--version"], ["java", "-version"]):
    if core.run(c).returncode:
        sys.exit("missing " + c[0])
print("ok")
