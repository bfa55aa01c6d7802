#!/bin/bash
# usage: check.sh <property id> [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec python3 -B lib/check.py "$@"
