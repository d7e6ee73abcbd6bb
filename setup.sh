#!/bin/bash
# Offline build of the harness from the committed files and /repo's working tree.
exec "$(cd "$(dirname "$0")" && pwd)/build.sh" all
