#!/bin/bash
# Nothing needs to be fetched; builds the plain variants once so that a missing tool shows up here.
cd "$(dirname "$0")" && node --version && ./build.sh tco legacy
