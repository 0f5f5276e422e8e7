#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
export PYTHONDONTWRITEBYTECODE=1
exec python3-vt check.py "$@"
