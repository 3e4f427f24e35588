#!/usr/bin/env python3
from _ev import main
main("C09", ["age"], 1600, 12000, True, times=True, kinds=["rich"])
