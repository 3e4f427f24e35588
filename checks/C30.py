#!/usr/bin/env python3
import _sc
_sc.main("C30", "charge", 30, (4000, 10000), (12000, 20000), [])
