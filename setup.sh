#!/bin/bash
# builds the variants of nd which most checks observe, and the interposer
cd "$(dirname "$0")" && exec python3 -B -c '
from ndv import build
from ndv.checks import ALL
build.ensure(ALL)
build.shim()
'
