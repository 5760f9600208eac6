#!/usr/bin/env python3
"""Decides one property:  checks/check.py C07 [--thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import check
import plans

if __name__ == "__main__":
    sys.exit(check.main(plans.PLANS))
