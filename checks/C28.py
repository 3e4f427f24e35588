#!/usr/bin/env python3
import _sc
_sc.main("C28", "mass", 28, (4000, 8000), (10000, 20000), ["pairs after pre-fission neutrons: the energy is known to 250 keV"])
