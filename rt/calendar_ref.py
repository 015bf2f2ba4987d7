"""Calendar arithmetic written independently of the code under test."""
import calendar
from datetime import datetime, timedelta

STEP = {'millisecond': timedelta(milliseconds=1), 'second': timedelta(0, 1),
        'minute': timedelta(0, 60), 'hour': timedelta(0, 3600),
        'day': timedelta(1), 'week': timedelta(7)}


def add_months(d, n):
    k = d.year * 12 + d.month - 1 + n
    y, m = divmod(k, 12)
    m += 1
    return d.replace(year=y, month=m,
                     day=min(d.day, calendar.monthrange(y, m)[1]))


def at(start, kind, i):
    if kind in STEP:
        return start + STEP[kind] * i
    return add_months(start, i * (12 if kind == 'year' else 1))
