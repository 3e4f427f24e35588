#!/usr/bin/env python3
from _ev import main
main("C06", ["nkin"], 2400, 20000, False, windows=False, kepost=True)
