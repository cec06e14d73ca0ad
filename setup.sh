#!/bin/bash
# Builds every harness once; the checks rebuild what they need from /repo's working tree themselves.
cd "$(dirname "$0")" && python3 -c 'import sys; assert sys.version_info >= (3, 8)' && clang++ --version >/dev/null && mkdir -p build evidence replays && { python3 build.py || echo "note: not everything compiles; the checks will say so"; }
