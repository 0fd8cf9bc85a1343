#!/bin/sh
# builds the extractor from the committed source
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.path.insert(0,'.')
from dv import session
print(session.build_xtract())"
