#!/bin/bash
# development: rebuild /repo's tree into /tmp/w/b (check.py --build /tmp/w/b)
rm -rf /tmp/w/b; mkdir -p /tmp/w
cd /verif && /opt/venv/bin/python -c "
import sys; sys.path.insert(0,'.')
from sim import build; print(build.build('/tmp/w/b', *sys.argv[1:]))" "$@"
