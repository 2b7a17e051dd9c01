TECH = {"*": "bounded exhaustive exploration of the real implementation against an executable reference model"}
NOTE = {"*": "Every case of the stated finite space (operands, programs, histories or configurations) is executed on the real interpreter built from /repo and compared with an independent reference; the bounds are in DESIGN.md and in the evidence."}
NA = {}
