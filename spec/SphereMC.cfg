SPECIFICATION Spec
CONSTANTS
  Lons = {0, 1, 2}
  Lats = {0, 1, 2}
  Lon0 = "178"
  Lat0 = "70"
  MaxLen = 4
INVARIANTS AreaIndependent NearlyPlanar PartsAddUp CellsAddUp MembershipIsArea HoleSubtracts
CHECK_DEADLOCK FALSE
