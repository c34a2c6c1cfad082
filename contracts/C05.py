"""C05: every detection is used exactly once.  norfair.tracker.Tracker.{update,
_update_objects_in_place}."""
from contracts.updprops import *

P = Prop("C05", assumptions=["the detections of one update are distinct objects", "period >= 1", "the distance function is arbitrary but only reads (C06 treats norfair's)"],
         trusted=["the contracts of TrackedObject's methods used here are discharged by the checks of C02, C03 and C14, that of match_dets_and_objs by C04"])
P.unit("Tracker.update: use of the detections", covers=COVU, extra=ext.all_models)(used_once)
uoip_units(P)
