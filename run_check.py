#!/usr/bin/env python3
"""Usage: run_check.py ID [--tier quick|thorough]"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
prop = sys.argv[1]
if "--tier" in sys.argv:
    os.environ["VERIF_TIER"] = sys.argv[sys.argv.index("--tier") + 1]

from absint import report  # noqa: E402

module = importlib.import_module(f"checks.{prop.lower()}")
sys.exit(report.main(module.run, prop, " ".join(module.RULE.split()),
                     getattr(module, "ASSUMPTIONS", ())))
