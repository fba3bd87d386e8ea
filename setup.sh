#!/bin/bash
# Nothing to build: the code under test is pure Python, Hypothesis is vendored in /verif/vendor. Only checks that everything is there.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=vendor /opt/venv/bin/python -c "import hypothesis, numpy, scipy, mpmath, jinja2; print('hypothesis', hypothesis.__version__)" && command -v cc >/dev/null
