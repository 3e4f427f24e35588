#!/usr/bin/env python3
from _ev import main
main("C03", ["nucleons", "escission"], 2400, 20000, False, windows=False, yields=['escission'])
