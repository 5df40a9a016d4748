#!/bin/bash
# Builds the framework from the committed files (offline).
cd "$(dirname "$0")" && python3 -c '
import vlib
vlib.build_rig()
vlib.build_bundle()
vlib.build_cli()
vlib.build_tiny()
'
