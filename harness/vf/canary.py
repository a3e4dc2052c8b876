"""Builders of corrupted records: the specification has to reject them."""

import copy


def corrupt(recs, label, pick, change, n=6):
    """Corrupt one place in up to n records.

    pick(rec) -> list of places (anything), change(rec copy, place) edits it.
    """
    out = []
    step = max(1, len(recs) // 200)
    for r in recs[::step] if len(recs) > 400 else recs:
        try:
            places = pick(r)
            if not places:
                continue
            c = copy.deepcopy(r)
            change(c, places[len(out) % len(places)])
        except (LookupError, TypeError, ValueError):
            continue        # an incomplete record: the code under test did not get that far
        c["canary"] = label
        out.append(c)
        if len(out) >= n:
            break
    return out


def several(*fs):
    def build(recs):
        out = []
        for f in fs:
            out += f(recs)
        return out
    return build


def canary(label, pick, change, n=6):
    return lambda recs: corrupt(recs, label, pick, change, n)
