#!/bin/bash
# check.sh <property> <tier>
source /opt/vp/env.sh
cd "$(dirname "$0")"
exec /opt/venv/bin/python harness/check.py "$1" --tier "$2"
