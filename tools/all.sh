#!/bin/bash
# every check, one line each
cd "$(dirname "$0")/.."
ls props/c*.py | sed 's/.*c\([0-9]*\).py/C\1/' | xargs -P 8 -I{} sh -c 'python3 -W ignore check.py {} 2>&1 | tail -3 | cut -c1-700'
