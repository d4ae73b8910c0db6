#!/bin/bash
# builds the symbolic executor (each check would otherwise build it on its first run)
set -e
cd "$(dirname "$0")/.."
mkdir -p build
bash engine/build.sh build
