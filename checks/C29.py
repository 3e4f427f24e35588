#!/usr/bin/env python3
import _sc
_sc.main("C29", "tke", 29, (3000, 6000), (10000, 20000), ["pairs after pre-fission neutrons: the energy is known to 250 keV"])
