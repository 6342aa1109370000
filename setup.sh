#!/bin/bash
# Nothing is prebuilt: every check compiles what it needs from /repo's working tree at run time.
cd "$(dirname "$0")" || exit 2
test -x /opt/venv/bin/python && command -v g++ >/dev/null && chmod +x run.sh && echo "setup ok"
