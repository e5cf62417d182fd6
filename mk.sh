#!/bin/bash
cd /verif/gocv && GOFLAGS=-mod=mod GOPROXY=off go build -o /verif/bin/gocv .
