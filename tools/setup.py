#!/usr/bin/env python3
"""Builds the fact extractor (checks build it themselves when it is missing)."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from msa import model  # noqa: E402

print(model.tool())
