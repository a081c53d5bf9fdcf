"""C21: headers of the output and the main script."""

import contextlib
import datetime
import io
import itertools
import re
import sys

from mc.core import STATS, Space, expect

import magnopy  # noqa: E402
import magnopy._pinfo  # noqa: E402
from magnopy.__main__ import main  # noqa: E402
from magnopy._pinfo import conditions, logo, warranty  # noqa: E402

COMMENTS = [None, True, False, "#", "% ", "// ", ""]
LENGTHS = [None, 10, 70, 71, 80, 133]


def judge(case):
    """All the lines of the information are shown once, in order, and every line is a comment."""
    count, width, length, flat, comment = case
    info = None if count is None else [f"line number {i} {'x' * width}"[:58] for i in range(count)]
    text = logo(info=info, line_length=length, flat=flat, comment=comment)
    STATS.step()
    STATS.state(str(case))
    what = f"logo {case}"
    prefix = "# " if comment is True else ("" if comment is None or comment is False else str(comment))
    lines = text.split("\n")
    expect(text and not text.endswith("\n"), f"{what}: ends with an empty line")
    for line in lines:
        expect(line.startswith(prefix) and not line.startswith(("False", "True", "None")), f"{what}: line {line!r} is not a comment")
    if info is None:
        info = [magnopy.__version__, magnopy.__doclink__, magnopy.__release_date__, "License", "Copyright"]
    position = -1
    for item in info:
        where = [n for n, line in enumerate(lines) if item in line]
        if count is not None:
            where = [n for n, line in enumerate(lines) if re.search(re.escape(item) + r"(?![\dx])", line)]
            expect(len(where) == 1, f"{what}: {item!r} is on the lines {where}")
        expect(bool(where), f"{what}: {item!r} is not shown")
        expect(where[0] > position, f"{what}: {item!r} is out of order")
        position = where[0]
    if all(len(i) <= 57 for i in info):
        width = len(lines[0])
        expect(all(len(x) == width for x in lines), f"{what}: lines of different length")
        if length is not None and length >= 70:
            expect(width == len(prefix) + length, f"{what}: length of the lines is {width}")


def cases(tier):
    counts = [None] + list(range(0, 13 if tier == "quick" else 40))
    for case in itertools.product(counts, [0, 20, 60], LENGTHS, [False, True], COMMENTS):
        if case[0] is None and case[1]:
            continue
        yield list(case)


def run(arguments):
    out, err = io.StringIO(), io.StringIO()
    code = 0
    old = sys.argv
    sys.argv = ["magnopy", *arguments]
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            main()
    except SystemExit as e:
        code = e.code
    finally:
        sys.argv = old
    return code, out.getvalue(), err.getvalue()


def script(case):
    code, out, err = run(case)
    STATS.step()
    STATS.state(str(case))
    commands = [a for a in case if not a.startswith("-")]
    flags = [a for a in case if a.startswith("-")]
    known = {"logo", "warranty", "conditions", "version"}
    if len(commands) > 1 or not set(commands) <= known or not set(flags) <= {"-v", "--version", "-gc", "--git-commit"}:
        expect(code not in (0, None) and not out, f"{case}: accepted, code {code}")
        STATS.outcome("rejected")
        return
    expect(code in (0, None) and not err, f"{case}: code {code}: {err}")
    command = commands[0] if commands else None
    version = f"Magnopy v{magnopy.__version__}"
    if command == "logo":
        want = logo()
    elif command == "warranty":
        want = warranty()
    elif command == "conditions":
        want = conditions()
    elif command == "version" or {"-v", "--version"} & set(flags):
        want = version
    elif flags:
        want = f"{magnopy.__git_commit__}"
    else:
        want = "usage"
    expect(want.strip() in out, f"{case}: printed {out[:200]!r}")
    STATS.outcome("printed")


def script_cases(tier):
    words = ["logo", "warranty", "conditions", "version", "-v", "--version", "-gc", "--git-commit", "unknown", "--wrong"]
    for n in (0, 1, 2):
        for w in itertools.product(words, repeat=n):
            yield list(w)


MONTHS = "January February March April May June July August September October November December".split()


def dates(case):
    """Date and time of the header; the clock is replaced."""
    moment, comment, length = case
    moment = datetime.datetime(*moment)
    name = "datetime" if hasattr(getattr(magnopy._pinfo, "datetime", None), "now") else None
    if name is not None:

        class Clock(datetime.datetime):
            @classmethod
            def now(cls, tz=None):
                return moment

        original = magnopy._pinfo.datetime
        magnopy._pinfo.datetime = Clock
    try:
        before = datetime.datetime.now()
        text = logo(date_time=True, comment=comment, line_length=length)
        plain = logo(comment=comment, line_length=length)
        after = datetime.datetime.now()
    finally:
        if name is not None:
            magnopy._pinfo.datetime = original
    STATS.step()
    STATS.state(str(case))
    what = f"logo {case}"
    prefix = "# " if comment is True else (comment or "")
    for line in text.split("\n"):
        expect(line.startswith(prefix), f"{what}: line {line!r} is not a comment")
    found = re.findall(r"Generated on\s+(\d+) (\w+) (\d+) at (\d+):(\d+):(\d+)\s", text)
    expect(len(found) == 1, f"{what}: date and time in {text!r}")
    day, month, year, h, m, sec = found[0]
    expect(month in MONTHS, f"{what}: month {month}")
    got = datetime.datetime(int(year), MONTHS.index(month) + 1, int(day), int(h), int(m), int(sec))
    if name is not None:
        expect(got == moment, f"{what}: {got} is written")
        expect(f"2023-{moment.year}" in text, f"{what}: year of the copyright")
    else:
        STATS.outcome("real clock")
        expect(before.replace(microsecond=0) <= got <= after, f"{what}: {got} is written")
    # the same information as without the date
    expect("Generated" not in plain, f"{what}: date is not asked for")
    for item in (magnopy.__version__, magnopy.__doclink__, magnopy.__release_date__, "License", "Copyright"):
        expect(sum(item in line for line in text.split("\n")) == sum(item in line for line in plain.split("\n")), f"{what}: {item}")
    explicit = logo(info=["one", "two"], date_time=True, comment=comment, line_length=length)
    expect(explicit == logo(info=["one", "two"], comment=comment, line_length=length), f"{what}: date is added to the given information")


def dates_cases(tier):
    for month in range(1, 13):
        for day in (1, 2, 13, 28) if tier == "quick" else range(1, 29):
            for h, m, sec in ((0, 0, 0), (1, 2, 3), (23, 59, 58), (12, 5, 40)):
                n = month + day + h
                yield [[2024 + n % 5, month, day, h, m, sec], [None, True, "% "][n % 3], [None, 80, 133][n % 2]]


SPACES = [
    Space("logo", cases, judge, "number and length of the lines of information x length of the line x kind of the comment"),
    Space("dates", dates_cases, dates, "date and time of the header for months x days x times, with the clock replaced"),
    Space("script", script_cases, script, "all command lines of at most two words"),
]
ASSUMPTIONS = ["lines of the information have at most 58 characters, as documented"]
