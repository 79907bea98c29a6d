#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [options]
cd "$(dirname "$0")" && exec /opt/venv/bin/python -m symex.runner "$@"
