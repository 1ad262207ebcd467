#!/usr/bin/env python3
"""Replays a reported counterexample against the native build: replay.py HARNESS ENTRY INPUTS [params...]"""
import subprocess, sys, vbuild
sys.exit(subprocess.call([vbuild.native(sys.argv[1])] + sys.argv[2:]))
