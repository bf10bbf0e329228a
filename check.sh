#!/bin/bash
# bash check.sh <property id>
cd "$(dirname "$0")" && exec python3-vt check.py "$1"
