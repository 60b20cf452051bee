#!/bin/bash
# Builds every harness from /repo's working tree; the checks rebuild what has changed since.
cd "$(dirname "$0")" && PYTHONDONTWRITEBYTECODE=1 python3 vbuild.py
