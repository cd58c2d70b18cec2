"""Builds the extractor and warms the fact cache."""
from . import db
d = db.load(())
print("extractor ready; %d units, %d functions" % (len(d["units"]), len(d["defs"])))
