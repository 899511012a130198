"""C02: every note that linting produces is complete and renders, in every language."""

import re

from httplint.i18n import set_locale
from httplint.note import Note, categories, levels

from mon import borrow, drive
from mon import gen as g

PROPERTY = "C02"
RULE = (
    "plausible, mutated and hostile messages and exchanges; each note and subnote is rendered in five languages; "
    "non-trivial: the message produced at least one note other than those every empty message gets; distinct by "
    "the set of note classes and the languages"
)
SIZES = {"quick": 450, "thorough": 8000}
REQUIRE = {"renderings": 30000, "kind:note": 312, "kind:category": 9, "kind:level": 4, "subnotes": 50}
LOCALES = [None, "en", "es", "fr", "ja", "zh"]
PLACEHOLDER = re.compile(r"%\((\w+)\)[sd]")
BRACES = re.compile(r"(\{[a-z_]+\})")

REFS = ("ref_uri", "deprecation_ref")  # where the code says that a field is defined


def raw_vars(note):
    return " ".join(str(v) for v in note.vars.values())


def check_note(ctx, note, linter):
    cls = type(note).__name__
    ctx.seen("note", cls)
    ctx.expect(isinstance(note, Note), f"not-a-note:{cls}", f"{cls} isn't a Note")
    ctx.expect(
        isinstance(note.category, categories), f"category:{cls}", lambda: f"{cls} has category {note.category!r}"
    )
    ctx.expect(isinstance(note.level, levels), f"level:{cls}", lambda: f"{cls} has level {note.level!r}")
    ctx.seen("category", note.category.name)
    ctx.seen("level", note.level.name)
    ctx.expect(
        isinstance(note.subject, str), f"subject-type:{cls}", lambda: f"{cls} has subject {note.subject!r}"
    )
    texts = {}
    for locale in LOCALES:
        with set_locale(locale):
            summary = note.summary
            detail = note.detail
        ctx.count("renderings")
        texts[locale] = (summary, str(detail))
        for kind, text in (("summary", summary), ("detail", str(detail))):
            if not ctx.expect(
                isinstance(text, str), f"{kind}-type:{cls}", lambda: f"{cls} {kind} is {type(text).__name__}"
            ):
                continue
            left = [m for m in PLACEHOLDER.findall(text) if f"%({m})" not in raw_vars(note)]
            left += [m for m in BRACES.findall(text) if m not in raw_vars(note)]
            if "%s" in text and ("%s" not in raw_vars(note) or any("%s" in str(note.vars.get(k, "")) for k in REFS)):
                left.append("%s")
            ctx.expect(
                not left,
                f"placeholder:{cls}",
                lambda: f"{cls} {kind} in {locale} has unfilled placeholders {left}: {text[:200]!r}",
            )
        ctx.expect(
            bool(summary.strip()), f"empty-summary:{cls}", lambda: f"{cls} has an empty summary in {locale}"
        )
    ctx.expect(
        texts[None] == texts["en"], f"default-locale:{cls}", lambda: f"{cls} differs between no locale and en"
    )
    for locale in LOCALES:
        ctx.expect(
            bool(texts[locale][1].strip()) == bool(texts["en"][1].strip()), f"empty-detail:{cls}", lambda: f"{cls} in {locale} has the detail {texts[locale][1]!r:.300}, and {texts['en'][1]!r:.300} in English"
        )
    # an untranslated or unknown language falls back to English text
    with set_locale("xx"):
        fallback = note.summary
    ctx.expect(
        fallback == texts["en"][0], f"fallback:{cls}", lambda: f"{cls} in an unknown language: {fallback!r}"
    )
    ctx.expect(str(note) == note.summary, f"str:{cls}", lambda: f"str() of {cls} isn't its summary")


def check(ctx, case):
    seen = set()
    for linter in drive.linters(case):
        for note in linter.notes:
            for sub in note.subnotes:
                ctx.count("subnotes")
        for note in drive.all_notes(linter):
            check_note(ctx, note, linter)
            seen.add(type(note).__name__)
    seen -= {"DATE_CLOCKLESS", "STORE_STORABLE", "FRESHNESS_HEURISTIC", "STALE_SERVABLE", "MISSING_USER_AGENT"}
    if seen:
        ctx.distinct_case(sorted(seen))
        ctx.sample({"case": case, "notes": sorted(seen)})


def gen(rng, ctx):
    for i, name in enumerate(g.NAMES + g.EXTRA_NAMES):
        if i % ctx.workers != ctx.worker:
            continue
        for _ in range(40 if ctx.thorough else 10):
            kind = rng.choice([g.REQ, g.RES])
            if name in g.FIELDS and g.FIELDS[name][0] != g.BOTH and rng.random() < 0.9:
                kind = g.FIELDS[name][0]
            val = g.FIELDS[name][1](rng) if name in g.FIELDS and rng.random() < 0.6 else g.hostile_value(rng)
            msg = g.message(rng, kind, 1)
            msg["h"].append([name, g.to_latin1(val)])
            yield {kind: msg}
    for _, case in borrow.pool(rng, ctx, 400 if ctx.thorough else 60):
        yield case
    for _ in range(ctx.size):
        yield g.exchange(rng)
