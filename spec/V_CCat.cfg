SPECIFICATION SpecC
