#!/bin/bash
# usage: check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" || exit 2
exec /usr/bin/python3 -B vlib/driver.py "$@"
