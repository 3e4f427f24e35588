#!/usr/bin/env python3
from _ev import main
main("C04", ["pscission"], 2400, 20000, False, windows=False, yields=['pscission'])
