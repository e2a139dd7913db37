#!/usr/bin/env python3
"""Print the offsets of the zone in $TZ as [[first instant, offset], ...], as
the C library sees them between 1971 and 2039: the independent oracle for what
a local time means."""
import json, time

STEP = 6 * 3600
LO, HI = 31536000, 2177452800


def off(t):
    return time.localtime(t).tm_gmtoff


time.tzset()
res = [[LO, off(LO)]]
t, o = LO, res[0][1]
while t < HI:
    n = off(t + STEP)
    if n != o:
        a, b = t, t + STEP
        while b - a > 1:
            m = (a + b) // 2
            if off(m) == o:
                a = m
            else:
                b = m
        # more than one change within the step: walk on from here
        o = off(b)
        res.append([b, o])
        t = b
        continue
    t += STEP
print(json.dumps(res))
