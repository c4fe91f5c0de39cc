#!/bin/bash
# parse a specification and show what is wrong with it
cd "$(dirname "$0")/../spec" && tla-sany "$1.tla" 2>&1 | grep -v "^Parsing\|^Semantic proc\|^$" | head -${2:-25}
