#!/bin/bash
# builds the extractor of the verifier from the committed sources
cd "$(dirname "$0")/.." || exit 1
python3-vt -c "
import sys; sys.path.insert(0, 'verifier')
import verify; print(verify.extractor())"
