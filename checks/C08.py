#!/usr/bin/env python3
from _ev import main
main("C08", ["domain"], 2400, 20000, True, yields=['domain'])
