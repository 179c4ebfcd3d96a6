#!/bin/bash
# nothing is kept between runs: every check builds what it needs. This only shows that everything is there.
set -e
cd "$(dirname "$0")/.."
python3 -c 'import sys; sys.path.insert(0, "tools"); import zk; zk.classes(); zk.build_cli(); zk.build_tool("gtool"); print("ready")'
