#!/usr/bin/env python3
from _ev import main
main("C05", ["decay"], 1600, 12000, True, kinds=["rich", "rich", "rich", "rich", "rich", "bare", "prompt", "rich"], toyworld=True)
