"""C01: what a tracker reports.  norfair.tracker.Tracker.{update,
_update_objects_in_place,get_active_objects,current_object_count}."""
from contracts.updprops import *

P = Prop("C01", assumptions=["the detections of one update are distinct objects", "period >= 1"],
         trusted=["the contracts of TrackedObject's methods used here are discharged by the checks of C02, C03 and C14, that of match_dets_and_objs by C04"])
P.unit("Tracker.update: reported objects", covers=COVU + [TR + ".Tracker.current_object_count"], extra=ext.all_models)(reported)
uoip_units(P)
