#!/bin/bash
# Builds the harness against /repo's working tree, so that each check has less to build.
set -u
cd "$(dirname "$0")" || exit 2
exec ./run.sh setup
