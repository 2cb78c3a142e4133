#!/bin/bash
# Nothing to build: the checks import the working tree directly.
/opt/venv/bin/python -B -c 'import zope.interface, zope.i18nmessageid' || exit 1
mkdir -p "$(dirname "$0")/evidence"
