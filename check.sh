#!/bin/bash
# check.sh PROPERTY [quick|thorough] : decide one property on /repo's current working tree
cd "$(dirname "$0")" || exit 2
. engine/env.sh
exec /opt/venv/bin/python engine/run.py "$@"
