#!/bin/bash
# check.sh <property> [--tier quick|thorough] [--seed N] ...
# Rebuild against /repo and search for violations of one property.
cd "$(dirname "$0")" || exit 70
bash ./build.sh || exit 71
exec /verif/target/debug/dst check "$@"
