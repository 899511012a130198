"""C39: what is shown can be translated, and the translation tools catch what would break."""

import contextlib
import gettext
import io
import os
import runpy
import shutil
import sys
import tempfile
import types

from babel.messages import pofile
from babel.messages.catalog import Catalog

from mon import borrow, fw
from mon import gen as g
from mon.data.fields import FIELDS

PROPERTY = "C39"
RULE = (
    "catalogue look-ups are recorded while messages of all kinds are linted and shown, fields are described and the command line prints, and compared with what extraction finds in the source; catalogues of up to thirty messages (plain, with "
    "variables, plural) with translations that are right, missing, fuzzy, without a variable, with another one, or with stray or unfinished placeholders are checked, and translated with a stand-in model that answers, says nothing or fails; distinct by catalogue"
)
SIZES = {"quick": 500, "thorough": 4000}
REQUIRE = {
    "lookups": 35000, "kind:message": 350, "kind:described": 70, "kind:category": 9, "catalogues": 900, "checked": 7000, "kind:trouble": 12, "right": 2500, "bad": 1200, "missing": 600, "fuzzy": 600, "plural": 400, "passed": 100, "failed": 350,
    "translated": 500, "model_failures": 200, "gave_up": 12, "kept": 2500,
}

# extraction


def extracted():
    "The strings that the repository's own extraction finds."
    from babel.messages.extract import DEFAULT_KEYWORDS, extract_from_dir
    from babel.messages.frontend import parse_mapping_cfg

    with open(os.path.join(fw.REPO, "tools/i18n/babel.cfg"), encoding="utf-8") as fh:
        methods, options = parse_mapping_cfg(fh)
    found = set()
    with contextlib.redirect_stderr(io.StringIO()):
        for _, _, message, *_ in extract_from_dir(os.path.join(fw.REPO, "httplint"), methods, options, dict(DEFAULT_KEYWORDS)):
            found.update([message] if isinstance(message, str) else message)
    return found


GENERIC = "field is deprecated; it is not actively used"
_FOUND = []
_LOOKED_UP = []


def watch():
    "Record each string that is looked up in a catalogue."
    if _FOUND:
        return
    if fw.REPO not in sys.path:
        sys.path.append(fw.REPO)
    _FOUND.append(extracted())
    for cls in (gettext.NullTranslations, gettext.GNUTranslations):
        one, many = cls.gettext, cls.ngettext

        def look(self, message, real=one):
            _LOOKED_UP.append(message)
            return real(self, message)

        def look_many(self, first, second, n, real=many):
            _LOOKED_UP.extend([first, second])
            return real(self, first, second, n)

        cls.gettext, cls.ngettext = look, look_many


def judge_lookups(ctx, what):
    for message in _LOOKED_UP:
        if message:
            ctx.count("lookups")
            ctx.seen("message", message)
            ctx.expect(message in _FOUND[0], f"not-extracted:{message[:40]}", lambda: f"{message!r:.300} is looked up to show {what!r:.300}, but extraction doesn't find it")
    _LOOKED_UP.clear()


def show(ctx, case):
    from httplint.i18n import set_locale, translate
    from mon import drive

    watch()
    _LOOKED_UP.clear()
    with set_locale(case["lang"]):
        for linter in drive.run(case["msgs"]):
            if linter is None:
                continue
            for note in drive.all_notes(linter):
                note.summary, note.detail
                ctx.seen("category", note.category.name)
                translate(note.category.value)  # as the command line does
    judge_lookups(ctx, case["msgs"])


def describe(ctx, case):
    import httplint
    from httplint.i18n import set_locale

    watch()
    _LOOKED_UP.clear()
    with set_locale(case["lang"]):
        text = httplint.get_field_description(case["describe"])
    if text and GENERIC in text:
        _LOOKED_UP.clear()  # it's put together from the field's name and reference
        return
    if text:
        ctx.seen("described", case["describe"])
        ctx.expect(_LOOKED_UP, "description-lookup", lambda: f"the description of {case['describe']} isn't looked up")
    judge_lookups(ctx, case["describe"])


def command_line(ctx, case):
    watch()
    _LOOKED_UP.clear()
    with tool(["httplint", "-l", case["lang"]] + case["cli"], stdin=case["input"]):
        with contextlib.suppress(SystemExit):
            from httplint.cli import main

            main()
    judge_lookups(ctx, case["input"])


@contextlib.contextmanager
def tool(argv, stdin=""):
    "The surroundings of a command."
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdin
    sys.argv, sys.stdin = argv, io.TextIOWrapper(io.BytesIO(stdin.encode("latin-1")), encoding="utf-8")
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            yield out
    finally:
        sys.argv, sys.stdin = old


def command(module, argv):
    "-> (exit status, output)"
    if fw.REPO not in sys.path:
        sys.path.append(fw.REPO)
    status = 0
    with tool([module] + argv) as out:
        try:
            runpy.run_module(module, run_name="__main__")
        except SystemExit as why:
            status = why.code if isinstance(why.code, int) else 0 if why.code is None else 1
    return status, out.getvalue()


# catalogues


def write(case, where):
    for lang, messages in case["catalogues"].items():
        cat = Catalog(locale="fr", fuzzy=False)
        for m in messages:
            ids = tuple(m["id"]) if len(m["id"]) > 1 else m["id"][0]
            string = tuple(m["string"]) if len(m["id"]) > 1 else m["string"][0]
            cat.add(ids, string, flags=["fuzzy"] if m["fuzzy"] else [])
        path = os.path.join(where, lang, "LC_MESSAGES")
        os.makedirs(path)
        with open(os.path.join(path, "messages.po"), "wb") as fh:
            pofile.write_po(fh, cat)


def read(where, lang):
    with open(os.path.join(where, lang, "LC_MESSAGES", "messages.po"), "rb") as fh:
        cat = pofile.read_po(fh)
    out = []
    for m in cat:
        if m.id:
            out.append((list(m.id) if m.pluralizable else [m.id], list(m.string) if m.pluralizable else [m.string], "fuzzy" in m.flags))
    return out


def renders(string, names):
    "Whether a translation can be shown, with a value for each of the names in it."
    values = {n: f"<{n}>" for n in names}
    try:
        text = string % values
    except (TypeError, ValueError, KeyError):
        return False
    return all(v in text for v in values.values())


def check_catalogues(ctx, case, where):
    write(case, where)
    status, out = command("tools.i18n.check", ["--locale_dir", where])
    ctx.count("catalogues", len(case["catalogues"]))
    lines = out.split("\n")
    critical = undecided = False
    for lang, messages in case["catalogues"].items():
        mine = []
        start = [i for i, line in enumerate(lines) if line.startswith(f"Checking {lang} ")]
        ctx.expect(len(start) == 1, "file", lambda: f"{lang} isn't checked once: {out!r:.500}")
        if len(start) != 1:
            continue
        for line in lines[start[0] + 1:]:
            if line.startswith("Checking "):
                break
            mine.append(line)
        for m in messages:
            tag = m["id"][0].split(" ")[0]
            got = sorted(line.split()[0] for line in mine if line.split()[1:2] == [tag])
            about = lambda: f"{m!r:.400}: reported as {got}"
            ctx.count("checked")
            ctx.seen("trouble", m["trouble"])
            ctx.count("plural", len(m["id"]) > 1)
            ctx.count("fuzzy", m["fuzzy"])
            ctx.expect(("FUZZY" in got) == m["fuzzy"], "fuzzy", about)
            blank = not all(m["string"])
            ctx.count("missing", blank)
            ctx.expect(("MISSING" in got) == blank, "missing", about)
            serious = [x for x in got if x not in ("FUZZY", "MISSING")]
            if blank:
                ctx.expect(not serious, "missing-serious", about)
                continue
            bad = m["trouble"] != "right"
            ctx.count("bad" if bad else "right")
            # how the message was made against whether it can in fact be shown
            ok = all(renders(s, m["names"]) for s in m["string"])
            if bad and ok and m["trouble"] not in ("positional",):
                undecided = undecided or bool(serious)  # "%(name) response" is a conversion, with a flag
                continue
            ctx.expect(bool(serious) == bad, f"serious:{m['trouble']}", about)
            critical = critical or bad
    if critical or not undecided:
        ctx.expect(status == (1 if critical else 0), "status", lambda: f"exit status {status} for {case['catalogues']!r:.600}")
    ctx.count("failed" if critical else "passed")
    for lang, messages in case["catalogues"].items():
        ctx.expect([m["id"] for m in messages] == [x[0] for x in read(where, lang)], "unchanged", lambda: f"checking changed {lang}")


def translate_catalogues(ctx, case, where):
    write(case, where)
    asked = []
    plan = list(case["answers"])

    class Model:
        def prompt(self, text):
            asked.append(text)
            answer = plan[(len(asked) - 1) % len(plan)]
            if answer == "fail":
                raise RuntimeError("the model is not available")
            if answer == "interrupt":
                raise KeyboardInterrupt
            if answer == "late":

                def text_():
                    raise RuntimeError("the connection was lost")

                return types.SimpleNamespace(text=text_)
            return types.SimpleNamespace(text=lambda: answer)

    stub = types.ModuleType("llm")
    stub.get_model = lambda name: Model()
    old = sys.modules.get("llm")
    sys.modules["llm"] = stub
    try:
        status, out = command("tools.i18n.autotranslate", ["--locale_dir", where, "--rpm", "0"])
    finally:
        if old is None:
            del sys.modules["llm"]
        else:
            sys.modules["llm"] = old
    n, gave_up, want = 0, False, {}
    for lang in order(where, case["catalogues"]):
        failures, todo = 0, 0
        want[lang] = []
        for m in case["catalogues"][lang]:
            string, fuzzy = list(m["string"]), m["fuzzy"]
            if not gave_up and (fuzzy or not all(string)):
                answer = plan[n % len(plan)]
                ctx.expect(len(asked) > n and m["id"][0] in asked[n], "asked", lambda: f"{m['id']} isn't what the model was asked to translate in {asked[n : n + 1]}")
                n += 1
                todo += 1
                if answer in ("fail", "late"):
                    ctx.count("model_failures")
                    failures += 1
                    gave_up = failures >= 3
                elif answer == "interrupt":
                    gave_up = True
                else:
                    failures = 0
                    if answer.strip():
                        string, fuzzy = [answer.strip()], False
                        ctx.count("translated")
            else:
                ctx.count("kept")
            want[lang].append((m["id"], string, fuzzy))
    ctx.count("gave_up", gave_up)
    ctx.expect(len(asked) == n, "asked-number", lambda: f"the model was asked {len(asked)} times, not {n}: {case!r:.400}")
    ctx.expect(status == (1 if gave_up else 0), "translate-status", lambda: f"exit status {status} after {plan}: {out!r:.300}")
    for lang, messages in want.items():
        got = read(where, lang)
        ctx.expect(got == messages, "translated", lambda: f"with answers {plan!r}, {case['catalogues'][lang]!r:.500} became {got!r:.500}, not {messages!r:.500}")


def order(where, catalogues):
    "The order in which the files are translated (that of the directory)."
    import glob

    return [p.split(os.sep)[-3] for p in glob.glob(os.path.join(where, "*", "LC_MESSAGES", "messages.po"))]


def check(ctx, case):
    if "msgs" in case:
        show(ctx, case)
        return
    if "describe" in case:
        describe(ctx, case)
        return
    if "cli" in case:
        command_line(ctx, case)
        return
    ctx.distinct_case(case)
    ctx.sample(case)
    where = tempfile.mkdtemp(prefix="c39-")
    try:
        (translate_catalogues if "answers" in case else check_catalogues)(ctx, case, where)
    finally:
        shutil.rmtree(where)


# the workload

NAMES = ["field_name", "value", "a", "b2", "current_age", "message_type"]
WORDS = ["response", "the", "100%%", "cache", "`code`", "%%", "\n\nNew", "[x](http://a/)", "é", "日本語", '"q"', "don't", "\\n", "%%d", "(s)", "#1"]


def text(r, names, order=True):
    parts = [r.choice(WORDS) for _ in range(r.randint(0, 6))]
    for n in names:
        parts.insert(r.randint(0, len(parts)), r.choice([f"%({n})s", f"`%({n})s`", f"%({n})s."]))
    if names and r.random() < 0.15:
        parts.append(f"%({r.choice(names)})s")
    return " ".join(parts)


def trouble(r, names):
    "-> (what's wrong, a translation)"
    good = text(r, names)
    p = r.random()
    if p < 0.45:
        return "right", good or "oui"
    if p < 0.6 and names:
        n = r.choice(names)
        place = f"%({n})s"
        kind, new = r.choice([
            ("dropped", ""), ("renamed", f"%({n}x)s"), ("escaped", f"%%({n})s"), ("no conversion", f"%({n})"), ("no close", f"%({n}s"), ("full width", f"％({n})s"), ("no percent", f"({n})s"), ("spaced", f"% ({n})s"),
            ("cased", f"%({n.upper()})s"), ("translated", "%(nom)s"), ("number", f"%({n})d"),
        ])
        return kind, good.replace(place, new) or "non"
    at = r.randint(0, len(good))
    while at and at < len(good) and (good[at - 1] == "%" or "%(" in good[max(0, at - 20):at] and ")s" in good[at:at + 20]):
        at -= 1
    kind, new = r.choice([("extra", " %(other)s "), ("stray", " 50%. "), ("stray end", None), ("positional", " %s "), ("positional d", " %d "), ("odd", " %%% "), ("unknown conversion", " %(w)y "), ("percent of", " 100% of "), ("stray paren", " %) ")])
    if new is None:
        return kind, good + " 100%"
    return kind, good[:at] + new + good[at:]


def catalogue(r, plural=True, clean=False):
    out = []
    for i in range(r.choice([0, 1, 2, 5, 10, 30])):
        names = r.sample(NAMES, r.choice([0, 0, 1, 1, 2, 3]))
        tag = f"m{i:03}x{r.randrange(1000)}"
        m = {"names": names, "fuzzy": r.random() < 0.15 and not clean}
        if plural and r.random() < 0.12:
            m["id"] = [f"{tag} " + text(r, names), f"{tag} " + text(r, names)]
            kind, bad = trouble(r, names)
            m["string"] = [text(r, names) or "un", text(r, names) or "deux"]
            if clean:
                kind = "right"
            if kind != "right":
                m["string"][r.randrange(2)] = bad
            m["trouble"] = kind
        else:
            m["id"] = [f"{tag} " + text(r, names)]
            m["trouble"], string = trouble(r, names)
            if clean and m["trouble"] != "right":
                m["trouble"], string = "right", text(r, names) or "oui"
            m["string"] = [string]
        if r.random() < 0.15:
            m["string"][r.randrange(len(m["string"]))] = ""
        if r.random() < 0.05 and not names and not clean:
            m["trouble"], m["string"] = "right", ["oui"] * len(m["id"])
        out.append(m)
    return out


def fixed():
    from mon.checks.c07 import KNOWN

    own = [n for n in KNOWN if n in FIELDS]
    for name in own:
        yield {"describe": name, "lang": "fr"}


def gen(rng, ctx):
    langs = ["en", "fr", "es", "ja", "zh", "xx"]
    for i in range(ctx.size):
        p = rng.random()
        if p < 0.5:
            msgs = borrow.some(rng, ctx) if rng.random() < 0.7 else g.exchange(rng, 8, 0.2)
            yield {"msgs": borrow.whole(msgs), "lang": rng.choice(langs)}
        elif p < 0.55:
            yield {
                "cli": rng.choice([[], ["-n"]]), "lang": rng.choice(langs[:5]),
                "input": f"HTTP/1.1 {rng.choice([200, 404, 304])} OK\r\nContent-Length: {rng.choice([0, 5])}\r\n" + "".join(f"{n}: {v}\r\n" for n, v in [g.field(rng, g.RES, 0.1) for _ in range(5)] if n.isascii() and n.isalnum() and v.isascii() and v.isprintable()) + "\r\nhello",
            }
        elif p < 0.8:
            clean = rng.random() < 0.25
            yield {"catalogues": {lang: catalogue(rng, clean=clean) for lang in rng.sample(["fr", "xx", "pt_BR"], rng.choice([1, 1, 1, 2, 3]))}}
        else:
            pool = ["oui", " non \n", "avec %(a)s", "été", "", "  ", "fail", "late"]
            answers = [rng.choice(pool) for _ in range(rng.randint(1, 8))]
            if rng.random() < 0.05:
                answers[rng.randrange(len(answers))] = "interrupt"
            yield {"catalogues": {lang: catalogue(rng, plural=False) for lang in rng.sample(["fr", "xx", "pt_BR"], rng.choice([1, 1, 2]))}, "answers": answers}
