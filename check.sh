#!/bin/bash
cd "$(dirname "$0")" || exit 2
exec python3-vt -B check.py "$@"
