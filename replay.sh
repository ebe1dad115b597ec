#!/bin/bash
# replay.sh <file>: runs the contract of a replay file again on the real library.
cd "$(dirname "$0")"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=-1 TF_CPP_MIN_LOG_LEVEL=3
export PYTHONPATH=/repo:$PWD
exec /opt/venv/bin/python -W ignore -m t3v.replay "$@"
