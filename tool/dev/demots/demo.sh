#!/bin/bash
# run with cwd = the repository, after its build
exec node "$(dirname "$0")/demo.js"
