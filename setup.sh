#!/bin/bash
# Builds everything once from the committed files, offline.
exec "$(cd "$(dirname "$0")" && pwd)/run.sh" build
