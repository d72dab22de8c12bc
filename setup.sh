#!/bin/sh
# Builds nothing that is committed: warms the private build of /repo under build/.
cd "$(dirname "$0")" && python3 -c "
import sys; sys.path.insert(0,'.')
from vk import build; build.build()"
