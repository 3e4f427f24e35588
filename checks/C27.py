#!/usr/bin/env python3
import _sc
_sc.main("C27", "spin", 27, (2500, 3000), (8000, 16000), ["moments of inertia are compared to 0.3 %"])
