"""Per-property wording for MANIFEST.json (see tools/manifest.py)."""
DEFAULT = ("Search, not proof: no counterexample among the generated cases, whose number, classes and samples are in the "
           "evidence file. Trusts NumPy, SciPy, GEOS and the oracle in checks/ and pbt/oracle.py.")
TECHNIQUE = {}
LEVEL = {}
