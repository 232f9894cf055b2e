#!/bin/bash
# Both builds of the simulator.
cd "$(dirname "$0")" && ./build.sh && exec ./build.sh cov
