#!/bin/bash
# Builds everything the checks use, from /repo's working tree.
set -e
V="$(cd "$(dirname "$0")/.." && pwd)"
bash "$V/bin/build.sh"
bash "$V/bin/build-cli.sh"
