"""Reading back what the reports of the code under test print."""
import contextlib
import csv
import io
import os

from auxi.core.reporting import ReportFormat


def as_csv(render, path='rpt'):
    """render(format, output_path): rows of the csv file of a report."""
    render(ReportFormat.csv, path)
    with open(path + '.csv', newline='', encoding='utf8') as f:
        rows = [r for r in csv.reader(f)]
    os.remove(path + '.csv')
    return rows


def captured(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()
