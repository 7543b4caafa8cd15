#!/bin/bash
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")"
exec python3 engine/check.py "$1" --tier "${2:-quick}"
