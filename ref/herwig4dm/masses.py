"""Frozen particle masses (GeV)."""
mpi0 = 0.1349768
mpi = 0.13957039
mk = 0.493677
mk0 = 0.497611
meta = 0.547862
metap = 0.95778
momega = 0.78266
fpi = 0.0922138
