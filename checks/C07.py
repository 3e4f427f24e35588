#!/usr/bin/env python3
from _ev import main
main("C07", ["gkin"], 1600, 12000, True)
