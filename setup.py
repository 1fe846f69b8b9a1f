#!/usr/bin/env python3
"""Checks that the tools are there and builds the workspace; every check does this again for itself."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import tools  # noqa: E402

tools.tlc("Pkce", {"Deep": False}, invariants=["Injective"], workers=1)
tools.build("core")
print("ready")
