#!/usr/bin/env python3
from _ev import main
main("C02", ["nucleons"], 2400, 20000, True, yields=['nucleons'])
