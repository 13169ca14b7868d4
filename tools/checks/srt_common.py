PROPS = ["InOrderOnce", "GapsExact", "AcksMonotone", "OnlyAfterHandshake"]
BASES = [100, 0x7FFFFFFE, 0, 0x7FFFFFFF, 0x3FFFFFFE, 1, 0x40000000, 0x7FFFFFFC]

def consts(peers, diffs, maxlen, acts):
    return {"Peers": set(peers), "Diffs": set(diffs), "MaxLen": maxlen, "Acts": set(acts)}
