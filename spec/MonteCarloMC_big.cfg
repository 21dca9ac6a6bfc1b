SPECIFICATION Spec
CONSTANTS T = 7 W = 3 Seeding = "trial"
INVARIANTS Once Distinct ScheduleFree
PROPERTY AllDone
