#!/bin/bash
# register every property whose harness exists (minus notes.json hold list) and commit
cd "$(dirname "$0")/.." && python3 tools/mkman.py && git add -A && git commit -qm "${1:-update}" && git log --format=%h -1
