#!/bin/bash
# Builds what the checks share (each check rebuilds what changed in /repo by itself).
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
exit 0
