for _p in PROPS:
    NA.setdefault(_p["id"], "not claimed yet: no contracts written for its functions so far")
