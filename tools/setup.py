#!/usr/bin/env python3
"""setup_cmd: builds the LLVM IR exporter (the only compiled part of the framework)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir
ir.ensure_irx()
print("irx ready")
