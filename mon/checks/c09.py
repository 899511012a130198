"""C09: notes are attributed to the part of the message that they're about."""

import re

from mon import borrow, drive
from mon import gen as g
from mon.data.fields import ALIASES, FIELDS
from mon.data.subjects import EXACT, FIELD, LINE

PROPERTY = "C09"
RULE = (
    "messages and exchanges of valid and mutated fields; each note's subject is compared with the fields present, and each line's notes with those "
    "it has on its own and with unknown lines inserted before it; distinct by the fields"
)
SIZES = {"quick": 700, "thorough": 9000}
REQUIRE = {"notes": 20000, "line_notes": 8000, "field_notes": 8000, "alone": 6000, "shifts": 3000, "kind:subject": 80, "kind:about": 200}

WHOLE = {"", "message", "uri", "status", "method", "field-block"}
ALIAS_OF = {"from": "from"}
KNOWN = {n.lower() for n in FIELDS}


def name_of(raw):
    return raw.encode("latin-1").decode("ascii", "replace")


def shape(note):
    "A note without its position."
    return repr(note[1:]).lower()  # a name is shown as first sent


def check_subjects(ctx, linter, msg):
    lines = {"header": [name_of(n) for n, _ in msg["h"]], "trailer": [name_of(n) for n, _ in msg.get("tr") or []]}
    most = max(len(lines["header"]), len(lines["trailer"]))
    for note in linter.notes:
        ctx.count("notes")
        cls = type(note).__name__
        shown = note.vars.get("field_name")
        shown = str(shown) if shown is not None else None
        subject = note.subject
        if cls in LINE:
            right = bool(re.fullmatch(r"offset-[0-9]+", subject))
        elif cls in FIELD and shown is not None:
            right = bool(re.fullmatch(r"field-[^ ]*", subject))
        elif cls in EXACT:
            right = set(subject.split(" ")) == set(EXACT[cls].split(" "))
        else:
            right = True
            ctx.count("anywhere")
        ctx.seen("about", cls if right else "?")
        ctx.expect(right, f"about:{cls}", lambda: f"{cls} is about {subject!r}, in {msg!r:.400}")
        for part in note.subject.split(" "):
            if part in WHOLE:
                continue
            ctx.seen("subject", part)
            m = re.fullmatch(r"offset-(0|[1-9][0-9]*)", part)
            if m:
                ctx.count("line_notes")
                n = int(m.group(1))
                if not ctx.expect(n < most, f"offset-range:{cls}", lambda: f"{cls} is about line {n} of {most}"):
                    continue
                here = [section[n] for section in lines.values() if n < len(section)]
                if shown is not None:
                    ctx.expect(
                        any(shown.strip().lower() == h.strip().lower() or h.strip().lower() in ALIASES for h in here), f"offset-field:{cls}",
                        lambda: f"{cls} about {shown!r} is attributed to line {n}, which is {here!r}",
                    )
                continue
            m = re.fullmatch(r"field-(.*)", part, re.S)
            if not ctx.expect(bool(m), f"form:{cls}", lambda: f"{cls} has subject {note.subject!r}"):
                continue
            ctx.count("field_notes")
            name = m.group(1)
            ctx.expect(name == name.lower(), f"field-case:{cls}", lambda: f"{cls} has subject {note.subject!r}")
            present = {h.strip().lower() for h in lines["header"] + lines["trailer"]}
            ctx.expect(
                name in present or name in KNOWN, f"field-unknown:{cls}",
                lambda: f"{cls} has subject {note.subject!r}, which is neither in the message nor a field's name",
            )
            if shown is not None and "field_type" in note.vars and len(note.subject.split(" ")) == 1:
                ctx.expect(
                    shown.lower() == name or (shown.lower() in present and name not in present), f"field-name:{cls}",
                    lambda: f"{cls} is about {shown!r} but its subject is {note.subject!r}",
                )


def line_notes(linter, n):
    return sorted(shape(x) for x in drive.notes_of(linter) if x[0] == f"offset-{n}")


def check(ctx, case):
    base = {k: case[k] for k in ("req", "resp") if k in case}
    first = dict(zip(("req", "resp"), drive.run(base)))
    ctx.distinct_case([base[k]["h"] for k in base])
    ctx.sample(case)
    k = case["shift"]
    extra = [["X-Unremarkable", "1"]] * k
    moved = {}
    for kind in base:
        check_subjects(ctx, first[kind], base[kind])
        moved[kind] = dict(base[kind])
        # only headers or only trailers, so that positions are of one or the other
        if not base[kind].get("tr"):
            moved[kind]["h"] = extra + base[kind]["h"]
        elif not base[kind]["h"]:
            moved[kind]["tr"] = extra + base[kind]["tr"]
    second = dict(zip(("req", "resp"), drive.run(moved)))
    for kind in base:
        if base[kind]["h"] and base[kind].get("tr"):
            continue
        want, got = [], []
        for note in drive.notes_of(first[kind]):
            if note[1] == "FIELD_SECTION_TOO_LARGE":
                continue
            subject = note[0]
            if subject.startswith("offset-"):
                subject = f"offset-{int(subject[7:]) + k}"
            want.append(repr((subject,) + note[1:]))
        for note in drive.notes_of(second[kind]):
            if note[1] != "FIELD_SECTION_TOO_LARGE":
                got.append(repr(note))
        ctx.count("shifts")
        ctx.expect(
            sorted(want) == sorted(got), "shift",
            lambda: f"with {k} more lines first, notes {[x for x in want if x not in got]!r:.400} became {[x for x in got if x not in want]!r:.400}",
        )
    # a line's notes are about that line: they're the same when it's alone
    for kind in base:
        msg = base[kind]
        if msg.get("tr"):
            continue
        for n, line in enumerate(msg["h"]):
            alone = drive.run(dict(base, **{kind: dict(msg, h=[line])}))[0 if kind == "req" else 1]
            ctx.count("alone")
            a, b = line_notes(first[kind], n), line_notes(alone, 0)
            ctx.expect(
                a == b, f"alone:{line[0].lower().strip()}", lambda: f"line {n} {line!r:.300} in {msg['h']!r:.300} has notes {a!r:.300}, and alone {b!r:.300}"
            )


def gen(rng, ctx):
    for _ in range(ctx.size):
        case = borrow.some(rng, ctx) if rng.random() < 0.4 else g.exchange(rng, 7 if rng.random() < 0.97 else 150, 0.2)
        if rng.random() < 0.25:
            for kind in ("req", "resp"):
                if kind in case:
                    case[kind]["tr"] = case[kind].get("tr") or case[kind]["h"][:3]
                    if rng.random() < 0.7:
                        case[kind]["h"] = []
        else:
            for kind in ("req", "resp"):
                if kind in case:
                    case[kind].pop("tr", None)
        case["shift"] = rng.choice([1, 1, 2, 9, 12])
        yield case
