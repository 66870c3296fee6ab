#!/bin/bash
# Nothing to build: checks that the interpreter and Hypothesis are there and that the reference integrals are right.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python tools/selftest.py
