#!/bin/bash
# Unpacks the property-testing library from the local wheelhouse (no network).
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec /opt/venv/bin/python -W ignore -m vf.deps
