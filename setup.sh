#!/bin/bash
cd "$(dirname "$0")" && mkdir -p evidence replays && exec bash ./build.sh
