#!/bin/bash
# Run with cwd = the built repository.  Exit 0: behaves as it should.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++17 -w -g @FLAGS@ -I"$d" -I. -I_build/googleapis "$d/demo.cc" @SRCS@ \
  _build/libgoogleapis.a -lprotobuf -lcrypto -lpthread -o "$t/demo" || exit 3
timeout -k 5 120 @PREFIX@ "$t/demo"
