#!/opt/venv/bin/python
"""Decides the listed properties.  Usage: check.py <property> [--tier quick|thorough] | --replay FILE"""
import os
import sys

# sets of strings have the same order in every run
if os.environ.get("PYTHONHASHSEED") != "1":
    os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED="1"))

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "harness"))
import driver

if __name__ == "__main__":
    sys.exit(driver.main(sys.argv[1:]))
