#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json and DESIGN.md
cd "$(dirname "$0")/.." && python3 tools/gen_properties.py && python3 tools/gen_manifest.py && python3 tools/collect_seeds.py && /opt/venv/bin/python tools/gen_design.py
