SPECIFICATION SpecPre
