"""Whether a history of a register with unique values is linearizable.

(Gibbons and Korach: Testing shared memories.) An operation is a tuple
(kind, value, start, end), kind 'write' or 'read'.
"""


def complaint(initial, operations):
    """None, or why the history is not linearizable."""
    writes = {initial: (float('-inf'), float('-inf'))}
    reads = {}
    for kind, value, start, end in operations:
        if kind == 'write':
            assert value not in writes
            writes[value] = (start, end)
        else:
            reads.setdefault(value, []).append((start, end))
    zones = []
    for value, intervals in reads.items():
        if value not in writes:
            return 'a load returned %r, which nobody saved' % (value,)
        for start, end in intervals:
            if end < writes[value][0]:
                return 'a load returned %r before its save began' % (value,)
    for value, (start, end) in writes.items():
        group = [(start, end)] + reads.get(value, [])
        first_end = min(e for _, e in group)
        last_start = max(s for s, _ in group)
        zones.append((min(first_end, last_start), max(first_end, last_start),
                      first_end < last_start, value))
    forward = sorted(z for z in zones if z[2])
    # Forward zones: the register had this value at all times in between.
    reach = None
    for z in forward:
        if reach is not None and z[0] < reach[1]:
            return 'the loads of %r and of %r contradict each other' % (reach[3], z[3])
        if reach is None or z[1] > reach[1]:
            reach = z
    for z in zones:
        if z[2]:
            continue
        for f in forward:
            if f[0] < z[0] and z[1] < f[1]:
                return ('%r was saved or loaded while the register provably had the value %r'
                        % (z[3], f[3]))
    return None


def brute(initial, operations):
    """The same by trying all orders; for testing this module."""
    ops = list(operations)

    def go(left, value):
        if not left:
            return True
        limit = min(o[3] for o in left)
        for o in left:
            if o[2] <= limit:
                rest = [x for x in left if x is not o]
                if o[0] == 'write' and go(rest, o[1]):
                    return True
                if o[0] == 'read' and o[1] == value and go(rest, value):
                    return True
        return False
    return go(ops, initial)
