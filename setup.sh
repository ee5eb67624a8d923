#!/bin/bash
# builds the engine (nothing of /repo is built here: every check builds what it needs from the current tree)
cd "$(dirname "$0")" && exec python3-vt -c 'from vlib import build; print(build.engine())'
