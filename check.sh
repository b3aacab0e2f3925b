#!/bin/bash
# usage: check.sh <PROPERTY> <quick|thorough> [--replay FILE]
cd "$(dirname "$0")" || exit 3
export HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 SETUPTOOLS_SCM_PRETEND_VERSION=1.0.0
exec /opt/venv/bin/python -m vp.runner "$@"
