SPECIFICATION Spec
CONSTANTS T = 4 W = 3 Seeding = "trial"
