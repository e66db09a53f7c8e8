#!/bin/bash
# Builds the engine if needed and runs it.
set -e
cd "$(dirname "$0")"
./setup.sh >&2
exec ./build/gosym "$@"
