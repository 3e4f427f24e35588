SPECIFICATION MSpec
INVARIANT Nucleons
INVARIANT Momentum
INVARIANT Energy
INVARIANT Leaks
INVARIANT NoDebt
INVARIANT Ages
INVARIANT Cold
PROPERTY Complete
CONSTANTS
  Energies = {0, 1800000}
  Windows <- SmallWindows
  Shares = {1200000}
  Charges = {2}
  Signs = {1}
