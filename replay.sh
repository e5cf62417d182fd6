#!/bin/bash
# replay.sh FILE: runs the failing input of a replay file against the code in /repo.
exec /verif/bin/gocv replay "$1"
