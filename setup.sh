#!/bin/bash
# Builds the simulator from the committed files and /repo's tree.
"$(dirname "$0")/build.sh" > /dev/null
