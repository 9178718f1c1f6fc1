#!/bin/bash
# run with cwd /repo: exit 0 when the property holds for this scenario
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"; trap 'rm -rf -- "$t"' EXIT
g++ -std=c++14 -O0 -w  -I. -IAlexandriaKernel -IConfiguration -IFilePool -IGridContainer -IHistogram -IKdTree -IMathUtils -INdArray -IPhysicsUtils -ISOM -ISourceCatalog -ITable -IXYDataset "$d/demo.cpp"  -o "$t/demo"  || exit 0
cd "$t" && timeout 100 ./demo
