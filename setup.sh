#!/bin/bash
# builds the TLC operator overrides from java/ (checks also build them on demand)
cd "$(dirname "$0")" || exit 1
PYTHONPATH="$PWD/harness" /opt/venv/bin/python -c "import core; print(core.classes_dir())"
