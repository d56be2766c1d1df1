#!/bin/bash
# regenerates /verif/DESIGN.md from its parts, the checks' own descriptions and the planted bugs
cd "$(dirname "$0")" || exit 2
{ cat design_head.md; /opt/venv/bin/python -B design_props.py
  sed '/^%TABLE%$/,$d' design_tail.md; python3 -B design_seeds.py; sed '1,/^%TABLE%$/d' design_tail.md; } > ../DESIGN.md
