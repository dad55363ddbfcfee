#!/bin/bash
# Exit 0 if the property held in the demonstration, nonzero otherwise.
exec python3 "$(dirname "$0")/run_demo.py" "$PWD"
