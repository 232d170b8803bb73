SPECIFICATION SpecCat
