SPECIFICATION Spec
CONSTANTS T = 5 W = 3 Seeding = "trial"
