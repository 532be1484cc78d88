#!/bin/bash
# regenerates properties.jsonl, MANIFEST.json, known_findings.json and the generated sections of DESIGN.md
cd "$(dirname "$0")/.." && python3 tools/make_properties.py && /opt/venv/bin/python tools/make_manifest.py && python3 tools/make_findings.py && PYTHONHASHSEED=0 /opt/venv/bin/python -B tools/make_design.py
