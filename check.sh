#!/bin/bash
# check.sh <property> [quick|thorough]
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
exec python3-vt -W ignore -m t3v.check "$@"
