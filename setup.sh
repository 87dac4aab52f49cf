#!/bin/bash
# Warms the build cache; every check builds itself from /repo's working tree.
cd "$(dirname "$0")" || exit 1
exec ./run.sh BUILD
