#!/bin/bash
# ./check.sh P01 quick|thorough [task-glob]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -B -m hv.run "$@"
