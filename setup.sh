#!/bin/sh
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'lib')
import build; build.tool(); build.dump('default')"
