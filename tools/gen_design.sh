#!/bin/sh
# DESIGN.md from its parts and the harness headers
cd "$(dirname "$0")/.."
{ cat tools/design_head.md
  grep ^fixed known_findings.jsonl | sed -E 's/^fixed: property=(C[0-9]+) (\w+) (.*)$/| \1 | \2 | \3 |/'
  cat tools/design_tail.md
  cat tools/design_seeded.md
  printf '\n## 7. The properties and their bounds\n\n'
  python3 tools/gen_design_table.py
} > DESIGN.md
