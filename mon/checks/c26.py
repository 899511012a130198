"""C26: the language of a result is that of the context it's in, and only the words depend on it."""

import asyncio
import json
import os
import random
import sys
import threading

from babel.messages.pofile import read_po

import httplint
from httplint.i18n import set_locale, translate

from mon import borrow, drive, fw
from mon import gen as g

PROPERTY = "C26"
RULE = (
    "exchanges linted under each locale, and their notes rendered under each: by nested contexts (left normally and by exceptions), threads, and asyncio tasks that switch between operations, "
    "each with its own locale; texts are compared with the catalogues' sources; distinct by the notes and the plan"
)
CASE_CPU_LIMIT = 60
SIZES = {"quick": 45, "thorough": 700}
REQUIRE = {
    "nested": 1500, "left_by_exception": 200, "threaded": 2500, "thread_switches": 300, "tasks": 2500, "task_switches": 1500, "catalogue": 4000, "translated": 2500, "details_translated": 3000, "fallback": 30, "linted_under": 2000,
    "kind:note": 150, "kind:locale": 10, "distinct": 250,
}
LOCALES = [None, "en", "es", "fr", "ja", "zh", "xx", "fr_FR", "es_MX", "zz_ZZ", "en_GB"]
LANGUAGES = ["es", "fr", "ja", "zh"]


def language(locale):
    lang = (locale or "en").split("_")[0]
    return lang if lang in LANGUAGES else "en"


def catalogues():
    "The sources of the catalogues: {language: {English: translated}}"
    out = {"en": {}}
    for lang in LANGUAGES:
        path = os.path.join(os.path.dirname(httplint.__file__), "translations", lang, "LC_MESSAGES", "messages.po")
        with open(path, "rb") as fh:
            po = read_po(fh, locale=lang)
        out[lang] = {m.id: m.string for m in po if m.id and isinstance(m.id, str) and m.string and not m.fuzzy}
    return out


_CATALOGUES = {}


def catalogue(lang):
    if not _CATALOGUES:
        _CATALOGUES.update(catalogues())
    return _CATALOGUES[lang]


def gen(r, ctx):
    for _ in range(ctx.size):
        case = borrow.some(r, ctx) if r.random() < 0.4 else g.exchange(r, 6, 0.15)
        msg = r.choice(list(case.values()))
        msg["h"] += [g.field(r, g.RES if "s" in msg else g.REQ, 0.1)[:2] for _ in range(r.randint(0, 5))]
        if r.random() < 0.5:
            msg["t"] = 1700000000.0
            msg["h"] += r.sample([["Date", "Mon, 13 Nov 2023 22:13:20 GMT"], ["Last-Modified", "Sat, 12 Nov 2022 22:13:20 GMT"], ["Age", "77777"], ["Expires", "Thu, 14 Nov 2024 22:13:20 GMT"], ["Cache-Control", "max-age=86400"]], 3)
        if r.random() < 0.15:
            msg["h"].append(["X-Big", "x" * 33000])
        if r.random() < 0.15:
            msg["tr"] = [["X-Big", "x" * 33000]]
        if any(len(m["h"]) > 60 for m in case.values()):
            continue
        yield {"case": case, "plan": r.randrange(2**32)}


def render(notes):
    return [[str(n.summary), str(n.detail)] for n in notes]


class Left(Exception):
    pass


def check(ctx, case):
    r = random.Random(case["plan"])
    notes = [n for linter in drive.linters(case["case"]) for n in drive.all_notes(linter)]
    base = {}
    for locale in LOCALES:
        with set_locale(locale):
            base[locale] = render(notes)
    about = json.dumps(case["case"])[:400]

    def same(got, locale, mech):
        ctx.seen("locale", str(locale))
        for i, (one, two) in enumerate(zip(base[locale], got)):
            if not ctx.expect(one == two, mech, lambda: f"{type(notes[i]).__name__} in {locale}: {two!s:.200}, not {one!s:.200}; {about}"):
                return

    # the words are those of the catalogue, or else English
    for locale in LOCALES:
        words = catalogue(language(locale))
        for note, (summary, detail), (_, english) in zip(notes, base[locale], base["en"]):
            English = type(note)._summary
            expected = words.get(English, English)
            ctx.count("catalogue")
            ctx.count("translated", expected != English)
            ctx.count("fallback", language(locale) != "en" and expected == English)
            with set_locale(locale):
                ctx.expect(summary == expected % note.vars, "catalogue", lambda: f"{type(note).__name__} in {locale}: {summary!r}, not {expected % note.vars!r}")
            text = words.get(type(note)._text, type(note)._text)
            ctx.count("details_translated", text != type(note)._text)
            if text != type(note)._text or not any(type(v).__name__ == "RelativeTime" for v in note.vars.values()):
                ctx.expect(
                    (detail == english) == (text == type(note)._text), "catalogue-detail", lambda: f"{type(note).__name__} in {locale} has the detail {detail!r:.300}, and in English {english!r:.300}"
                )
    for note in notes:
        ctx.seen("note", type(note).__name__)

    # nested contexts
    def nest(depth, inside):
        locale = r.choice(LOCALES)
        try:
            with set_locale(locale):
                if depth and r.random() < 0.8:
                    nest(depth - 1, locale)
                ctx.count("nested")
                same(render(notes), locale, "nested")
                ctx.expect(
                    translate("request") == catalogue(language(locale)).get("request", "request"), "translate", lambda: f"request in {locale}: {translate('request')}"
                )
                if depth and r.random() < 0.5:
                    nest(depth - 1, locale)
                if r.random() < 0.3:
                    raise Left
        except Left:
            ctx.count("left_by_exception")
        same(render(notes), inside, "restored")

    with set_locale("en"):
        nest(3, "en")
    same(render(notes), None, "restored")

    # linting under a locale changes words only
    shown = {}
    for locale in r.sample(LOCALES[1:], 3) + ["en"]:
        with set_locale(locale):
            found = drive.linters(case["case"])
            words = catalogue(language(locale))
            shown[locale] = [
                [[n.subject, type(n).__name__, n.level.name, n.category.name, sorted(n.vars)] for linter in found for n in drive.all_notes(linter)],
                [[[k, drive.norm(v)] for k, v in linter.headers.parsed.items()] for linter in found],
            ]
            own = [n for linter in found for n in drive.all_notes(linter)]
            for linter in found:
                for note in drive.all_notes(linter):
                    kind = "response" if hasattr(linter, "status_code") else "request"
                    ctx.expect(
                        note.vars.get("message_type") == words.get(kind, kind), "message-type", lambda: f"{type(note).__name__} in {locale} is about a {note.vars.get('message_type')!r}, not a {words.get(kind, kind)!r}"
                    )
                    if "field_type" in note.vars:
                        ctx.count("field_type")
                        ctx.expect(
                            note.vars["field_type"] in [words.get(k, k) for k in ("header", "trailer")], "field-type", lambda: f"{type(note).__name__} in {locale} is about a {note.vars['field_type']!r} section"
                        )
            for i, (one, two) in enumerate(zip(render(own), base[locale])):
                ctx.count("linted_under")
                if not any(part in type(own[i])._summary + type(own[i])._text for part in ("%(message_type)s", "%(message)s", "%(field_type)s")):
                    ctx.expect(one == two, "linted-under", lambda: f"{type(own[i]).__name__} made and shown in {locale}: {one!s:.200}, not {two!s:.200}; {about}")
    for locale, one in shown.items():
        ctx.expect(one == shown["en"], "same-result", lambda: f"the result in {locale} isn't the one in English: {one!s:.300}, {shown['en']!s:.300}; {about}")

    # threads, each with a locale
    n = r.randint(2, 5)
    mine = [r.choice(LOCALES) for _ in range(n)]
    few = notes[:12]
    log, got, failed = [], [[] for _ in mine], []
    barrier = threading.Barrier(n)

    def work(i):
        try:
            barrier.wait(60)
            with set_locale(mine[i]):
                for k in range(len(few)):
                    log.append(i)
                    got[i] += render(few[k:k + 1])
                    if k % 4 == 0:
                        with set_locale(mine[i - 1]):
                            log.append(i)
                            render(few[k:k + 1])
                log.append(i)
        except BaseException as exc:  # pylint: disable=broad-except
            failed.append((i, exc))

    interval = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        threads = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(n)]
        for thread in threads:
            thread.start()
        for thread in threads:
            thread.join(300)
    finally:
        sys.setswitchinterval(interval)
    if any(thread.is_alive() for thread in threads):
        ctx.violation("deadlock", f"threads that render at the same time don't finish: {about}")
        return
    for i, exc in failed:
        if isinstance(exc, threading.BrokenBarrierError):
            raise fw.HarnessError("threads didn't start")
        ctx.violation("thread-exception", f"rendering in threads raised {exc!r}: {about}")
    if failed:
        return
    ctx.count("thread_switches", sum(a != b for a, b in zip(log, log[1:])))
    for i, locale in enumerate(mine):
        ctx.count("threaded", len(got[i]))
        same(got[i], locale, "threaded")
    same(render(few), None, "after-threads")

    # asyncio tasks, each with a locale
    log.clear()
    order = random.Random(case["plan"])

    async def task(i, out):
        with set_locale(mine[i]):
            for k in range(len(few)):
                for _ in range(order.randint(0, 2)):
                    await asyncio.sleep(0)
                log.append(i)
                out += render(few[k:k + 1])
                if order.random() < 0.2:
                    with set_locale(order.choice(LOCALES)):
                        await asyncio.sleep(0)
                        log.append(i)
        await asyncio.sleep(0)
        log.append(i)
        out.append(render(few[:1]))

    async def run():
        outs = [[] for _ in mine]
        await asyncio.gather(*(task(i, outs[i]) for i in range(n)))
        return outs

    for i, out in enumerate(asyncio.run(run())):
        ctx.count("tasks", len(out) - 1)
        same(out[:-1], mine[i], "tasks")
        same(out[-1], None, "task-restored")
    ctx.count("task_switches", sum(a != b for a, b in zip(log, log[1:])))
    ctx.distinct_case([sorted(type(n).__name__ for n in notes), mine])
    ctx.sample([[str(m) for m in mine], [s for s, _ in base["fr"]][:2]])

