#!/bin/bash
# Nothing to build (pure Python): check that the interpreter can load the machinery.
cd "$(dirname "$0")" || exit 3
py=/opt/venv/bin/python
[ -x "$py" ] || py=python3
PYTHONDONTWRITEBYTECODE=1 exec "$py" -B -c 'import ast, glob; [ast.parse(open(f).read()) for f in glob.glob("mc/**/*.py", recursive=True)]'
