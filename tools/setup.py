#!/usr/bin/env python3
"""Builds the laboratory and checks that the tools are there.  The checks build what they need themselves."""
from vlib import *
print(build_lab())
print(sh(["java", "-version"]).stdout.split("\n")[0])
