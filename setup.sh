#!/bin/bash
# nothing is built ahead: checks that all a check needs is there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="/repo:$PWD"
exec /opt/venv/bin/python -c 'import pyang, lxml.etree, mon.core, mon.build; print("ready")'
