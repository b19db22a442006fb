"""X03: exactly the W3C datetimes are accepted, and times written are read back the same."""
import calendar
import itertools
import re
import time

PROPERTY = "X03"
LEVEL = "model_checking"
RULE = "An execution is the reading of one string as datetime, or the writing and reading back of one time; a state is a distinct string or time"
ASSUMPTIONS = ["Direction of the timezone offset is that which the tests of the library fix (opposite to the standard) and is not part of the property"]
YEARS = ["0000", "0001", "0999", "1582", "1900", "1969", "1970", "2000", "2020", "2021", "2100", "9999", "20", "02020", "12020", "\u0662\u0660\u0662\u0660", "-020", "2O20", "", " 2020"]
MONTHS = [None, "00", "01", "02", "06", "12", "13", "1", "001", "-1", "1a"]
DAYS = [None, "00", "01", "28", "29", "30", "31", "32", "1", "015"]
TIMES = [None, "00:00", "23:59", "24:00", "12:60", "12", "1:00", "12:0", "00:00:00", "23:59:59", "23:59:60", "12:00:61", "24:00:00", "12:60:00", "1:00:00", "12:00:0", "12:00:00:00"]
FRACTIONS = ["", ".0", ".5", ".123456789", ".999999", ".", ".5.5", ",5", ".5a", ".\u0665"]
ZONES = ["", "Z", "z", "+00:00", "-00:00", "+14:00", "-12:30", "+23:59", "+24:00", "+00:60", "+1:00", "+0100", "+01", "+01:0", "+01:00:00", "Z+01:00", " Z", "GMT", "01:00", "\u221201:00"]
SEPARATORS = ["T", " ", "t", "", "TT"]
FORMS = ["2020", "2020-06", "2020-06-30", "2020-06-30T12:34Z", "2020-06-30T12:34:56Z", "2020-06-30T12:34:56.789+01:30", "2020-02-29T00:00:00-00:01", "2020-06-30T12:34", "2020-06-30T12:34:56.5"]
CHARS = "0129-:+.TZtz /\n\t\x00\u0660\uff11aW,"
BOUNDS = {
    "quick": "all dates of %d x %d x %d parts; all of %d times x %d fractions x %d zones x %d separators on 3 dates; all strings one edit (deletion, insertion, replacement, swap) from %d "
             "forms over %d characters; times at all powers of two, day and year borders" % (len(YEARS), len(MONTHS), len(DAYS), len(TIMES), len(FRACTIONS), len(ZONES), len(SEPARATORS), len(FORMS), len(CHARS)),
    "thorough": "the same and all strings two edits from the three short forms",
}


def cases(tier):
    out = [["dates", i] for i in range(len(YEARS))] + [["times", i] for i in range(len(TIMES))] + [["edits", i, 1] for i in range(len(FORMS))] + [["write"]]
    if tier == "thorough":
        out += [["edits", i, 2] for i in range(3)]
    return out


def oracle(s):
    """Time in seconds without offset, and offset, or None if s is no W3C datetime (with optional zone)."""
    m = re.match(r"([0-9]{4})(?:-([0-9]{2})(?:-([0-9]{2})(?:T([0-9]{2}):([0-9]{2})(?::([0-9]{2})(\.[0-9]+)?)?(Z|[+-][0-9]{2}:[0-9]{2})?)?)?)?\Z", s)
    if not m:
        return None
    y, mo, d = int(m[1]), int(m[2] or 1), int(m[3] or 1)
    h, mi, sec = int(m[4] or 0), int(m[5] or 0), int(m[6] or 0)
    if y < 1 or not 1 <= mo <= 12 or d < 1 or d > calendar.monthrange(y, mo)[1] or h > 23 or mi > 59 or sec > 59:
        return None
    off = 0
    if m[8] and m[8] != "Z":
        oh, om = int(m[8][1:3]), int(m[8][4:6])
        if oh > 23 or om > 59:
            return None
        off = (oh * 3600 + om * 60) * (-1 if m[8][0] == "-" else 1)
    days = 365 * (y - 1) + (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + sum(calendar.monthrange(y, k)[1] for k in range(1, mo)) + d - 719163
    return days * 86400 + h * 3600 + mi * 60 + sec + float("0" + (m[7] or ".0")), off


def edits(s):
    for i in range(len(s) + 1):
        for c in CHARS:
            yield s[:i] + c + s[i:]
            if i < len(s):
                yield s[:i] + c + s[i + 1:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
        if i + 1 < len(s):
            yield s[:i] + s[i + 1] + s[i] + s[i + 2:]


def strings(case):
    if case[0] == "dates":
        for mo, d in itertools.product(MONTHS, DAYS):
            date = YEARS[case[1]] + ("" if mo is None else "-" + mo) + ("" if d is None else "-" + d)
            yield from (date, date + "T12:00:00Z", date + "T12:00", date + "Z")
    elif case[0] == "times":
        t = TIMES[case[1]]
        for f, z, sep, date in itertools.product(FRACTIONS, ZONES, SEPARATORS, ("2020-02-29", "1969-12-31", "2020-06")):
            yield date + (sep + t if t is not None else "") + f + z
    else:
        for s in edits(FORMS[case[1]]):
            if case[2] == 1:
                yield s
            else:
                yield from edits(s)


def run(case, world, out):
    from ocfl.w3c_datetime import datetime_to_str, str_to_datetime
    if case[0] == "write":
        return write(out, datetime_to_str, str_to_datetime)
    seen = set()
    for s in strings(case):
        if s in seen:
            continue
        seen.add(s)
        out.step()
        out.state(s)
        want = oracle(s)
        try:
            got = str_to_datetime(s)
        except ValueError:
            got = None
        out.done("accepted" if got is not None else "refused")
        if want is None:
            out.check(got is None, "read:%r" % s, lambda: "%r is read as time %r" % (s, got))
        elif got is None:
            out.violation("read:%r" % s, "%r is refused" % s)
        else:
            out.check(min(abs(got - want[0] - want[1]), abs(got - want[0] + want[1])) < 1e-4, "read:%r" % s, lambda: "%r is read as %r, not %r" % (s, got, want))
            if want[1]:
                out.check(abs(got - want[0]) > 1e-4, "read:%r" % s, "timezone offset is ignored")
    for s in ("",):
        try:
            str_to_datetime(s)
            out.violation("read:empty", "empty string is accepted")
        except ValueError:
            pass
    out.check(str_to_datetime(None) is None, "read:none", "None is not passed through")


def write(out, datetime_to_str, str_to_datetime):
    times = sorted({0, 1, 59, 60, 86399, 86400, 1e9, 1.5e9} | {1 << n for n in range(37)} | {(1 << n) - 1 for n in range(37)}
                   | {calendar.timegm((y, 1, 1, 0, 0, 0)) + d for y in range(1970, 2101) for d in (-1, 0, 1) if y > 1970}
                   | {calendar.timegm((y, 2, 28, 23, 59, 59)) + d for y in range(1970, 2101) for d in (0, 1, 2)})
    for t in times:
        for frac in (0, 0.5, 0.25, 0.000001, 0.999999, 0.123456):
            if t > 1e10 and frac:
                continue
            s = datetime_to_str(t + frac)
            out.step(2)
            out.state((t, frac))
            out.done("written")
            out.check(oracle(s) is not None and s.endswith("Z"), "write:%s" % (t + frac), lambda: "time %r is written as %r" % (t + frac, s))
            back = str_to_datetime(s)
            out.check(abs(back - t - frac) < 2e-5, "write:%s" % (t + frac), lambda: "time %r is written as %r and read as %r" % (t + frac, s, back))
            s = datetime_to_str(t + frac, no_fractions=True)
            out.check(str_to_datetime(s) == int(t) and "." not in s, "write:%s" % t, lambda: "time %r is written without fraction as %r" % (t, s))
    before = time.time()
    now = str_to_datetime(datetime_to_str())
    out.check(before - 1 <= now <= time.time() + 1, "write:now", "the time is written as %r" % now)
    out.check(str_to_datetime(datetime_to_str("now", no_fractions=True)) >= before - 2, "write:now", "now is not the time")
    out.check(datetime_to_str(None) is None, "write:none", "None is not passed through")
