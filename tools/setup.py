#!/usr/bin/env python3
"""Warms the Go build cache and checks that the tools answer. Nothing is kept: checks build again."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vt

work = vt.Work("setup")
try:
    try:
        work.build()
        work.build(race=True)
    except vt.CheckError as x:
        print(x)
    r = vt.run(["java", "-version"])
    sys.exit(r.returncode)
finally:
    work.close()
