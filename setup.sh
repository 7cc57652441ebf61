#!/bin/sh
# Nothing has to be built: the code under test is imported from /repo and Hypothesis is
# part of the sandbox. If it were missing, take it from the offline wheelhouse.
cd "$(dirname "$0")" || exit 1
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
if ! "$py" -c 'from pbt import env; env.add_hypothesis_path()' 2>/dev/null; then
    "$py" -m pip install -q --no-index --find-links /opt/veriftools/wheels --no-deps \
        --target .deps hypothesis sortedcontainers || exit 1
fi
PYTHONDONTWRITEBYTECODE=1 "$py" -c 'from pbt import env; env.add_hypothesis_path(); env.import_repo()'
