"""Verify the toolchain once: build the plain variant and compile the monitor."""
import sys, vlib
env = vlib.Env("setup", "quick", 1)
try:
    env.want("plain")
    env.cc("shim.so", ["shim.c"], ["-ldl", "-lpthread"], shared=True)
    r = vlib.run([env.bins["plain"], "--version"])
    sys.exit(0 if r.rc == 0 else 1)
finally:
    env.scratch.close()
