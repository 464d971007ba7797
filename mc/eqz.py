"""Reference model of event equalization on plain records (dictionaries)."""
import itertools
import re

TIME_COLUMNS = ('', 'fcst_valid_beg', 'fcst_lead', 'fcst_valid', 'fcst_init', 'fcst_init_beg', 'VALID', 'LEAD')
TIMES = ['2020-01-01 00:00:00', '2020-01-02 00:00:00', '2020-01-03 06:00:00']
# cases that differ in one part of the date or in one digit or the sign of the lead only
CLOSE_TIMES = ['2020-01-01 00:00:00', '2020-01-01 00:00:30', '2020-01-01 00:30:00', '2021-01-01 00:00:00']
CLOSE_LEADS = [0, 3, 30000, -30000, 300000]


def ungroup(value):
    dates = re.findall(r'\d{4}-\d\d-\d\d \d\d:\d\d:\d\d', value)
    return dates or value.split(':' if ':' in value else ';')


def text(value):
    """How a requested value and a record's value are compared."""
    return 'NA' if value is None else str(value)


def case_of(rec, indy, by_indep, valid='fcst_valid_beg'):
    c = (rec[valid], rec['fcst_lead'])
    if by_indep and indy not in TIME_COLUMNS:
        c += (text(rec[indy]),)
    return c


def requirements(series, fixed):
    """Every combination of ungrouped series values and fixed values a case has to occur in."""
    names, values = [], []
    for var, vals in list((series or {}).items()) + list((fixed or {}).items()):
        if var in TIME_COLUMNS:
            continue
        vals = [vals] if isinstance(vals, str) else vals
        names.append(var)
        values.append([u for v in vals for u in (ungroup(v) if var in (series or {}) else [v])])
    return [dict(zip(names, combo)) for combo in itertools.product(*values)]


def matches(rec, wanted):
    return all(text(rec[k]) == v for k, v in wanted.items())


def common_cases(recs, indy, series, fixed, by_indep, valid='fcst_valid_beg'):
    common = None
    for wanted in requirements(series, fixed):
        here = {case_of(r, indy, by_indep, valid) for r in recs if matches(r, wanted)}
        common = here if common is None else common & here
    return common or set()


def survivors(recs, indy, series, fixed, by_indep, valid='fcst_valid_beg'):
    common = common_cases(recs, indy, series, fixed, by_indep, valid)
    return [r for r in recs if case_of(r, indy, by_indep, valid) in common]


def subsets(cells, most=1):
    """Every way of having 0..most records per cell, fewest first."""
    return sorted(itertools.product(range(most + 1), repeat=cells), key=sum)
