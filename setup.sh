#!/bin/bash
# builds (or verifies) the extractor; everything else is plain Python run from the committed files
cd "$(dirname "$0")" || exit 1
exec python3 -B -c "
import sys; sys.path.insert(0, 'lib')
import build; print(build.extractor())"
