#!/bin/bash
# Nothing to install: checks regenerate everything from /repo on every run.  Self-test the engine's term layer.
cd "$(dirname "$0")" && mkdir -p evidence .build && python3-vt tests/fuzz_term.py 1 300 && python3-vt tests/fuzz_blast.py 1 20
