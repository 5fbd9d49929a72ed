"""Pickling of symbolic (and, in a replay, concrete) payloads: by reference."""
KEEP = []


def fetch(i):
    return KEEP[i]


def reduce(o):
    KEEP.append(o)
    return (fetch, (len(KEEP) - 1,))
