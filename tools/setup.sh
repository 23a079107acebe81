#!/bin/bash
# Nothing to build: the verifier is Python run from the committed files.  Fail early if the
# interpreters the checks use are missing.
python3-vt -c "import z3" && /opt/venv/bin/python -c "import torch"
