#!/bin/bash
# regenerate properties.jsonl, MANIFEST.json, known_findings.txt
cd /verif && python3 tools/meta.py && python3 tools/mkknown.py
