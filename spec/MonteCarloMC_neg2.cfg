SPECIFICATION Spec
CONSTANTS T = 3 W = 2 Seeding = "worker"
INVARIANT ScheduleFree
