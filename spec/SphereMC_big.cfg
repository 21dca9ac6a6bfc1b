SPECIFICATION Spec
CONSTANTS
  Lons = {0, 1, 2}
  Lats = {0, 1, 2}
  Lon0 = "-0.3"
  Lat0 = "-1"
  MaxLen = 5
INVARIANTS AreaIndependent NearlyPlanar PartsAddUp CellsAddUp MembershipIsArea HoleSubtracts
CHECK_DEADLOCK FALSE
