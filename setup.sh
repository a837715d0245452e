#!/bin/bash
cd "$(dirname "$0")" && exec bash ws/build.sh
