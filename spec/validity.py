"""When an aggregation parameter may be used."""


def prio3(previous):
    return len(previous) == 0


def poplar1_first(prefixes):
    for i in range(len(prefixes) - 1):
        if not prefixes[i] < prefixes[i + 1]:
            return False
    return True


def poplar1_next(level, prefixes, last_level, last_prefixes):
    for i in range(len(prefixes) - 1):
        if not prefixes[i] < prefixes[i + 1]:
            return False
    if not level > last_level:
        return False
    for i in range(len(prefixes)):
        if prefixes[i][:last_level + 1] not in last_prefixes:
            return False
    return True
