#!/usr/bin/env python3
"""Warm up: build the extractor. Every check builds what it needs itself, so this is only a smoke test."""
import os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(here, "build", "xt"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
sys.exit(subprocess.call(["cargo", "build", "--offline", "--locked", "-q"], cwd=os.path.join(here, "tools/extract"), env=env))
