"""C40: the rules of httplint.syntax match what the ABNF they're for allows, and nothing else."""

import importlib
import re

from mon import abnf as a
from mon.grammar import comment_depth
from mon.rules import MODULES, PYTHON

PROPERTY = "C40"
RULE = (
    "every rule of httplint.syntax that's named for an ABNF production: strings derived from the production, and edited ones, as well as each single character; a separate "
    "ABNF interpreter says what the production allows; distinct by rule and string"
)
SIZES = {"quick": 30000, "thorough": 200000}
RULES = [(m, rule) for m, spec in sorted(MODULES.items()) for rule in spec["rules"]]
REQUIRE = {"as-written": 60000, "valid": 2000, "invalid": 60000, "kind:rule-valid": 290, "kind:rule-invalid": 290, "kind:module": 11}
SPECIALS = '"\\,;=/()<>@ \t*:?#%[]{}\x00\x7f\x80\xe9\xff\'&+-._~!$^`|0aZ9gGxX\r\n\u0660\u212a\u017f\xb2\xaa'
FOUND = {}


def pattern(module, rule):
    if (module, rule) not in FOUND:
        name = PYTHON.get((module, rule), rule.replace("-", "_"))
        found = getattr(importlib.import_module(f"httplint.syntax.{module}"), name, None)
        FOUND[module, rule] = found and [re.compile(rf"(?:{found})", flags) for flags in (re.VERBOSE, re.VERBOSE | re.IGNORECASE)]
    return FOUND[module, rule]


def judge(ctx, module, rule, text):
    patterns = pattern(module, rule)
    if patterns is None:  # no longer there
        ctx.count("absent")
        return
    if (module in ("rfc5322", "rfc9110") and comment_depth(text) > 3) or (rule == "chunked-body" and text.count("\n") > 8):
        ctx.count("undecided")  # nested deep; or there are many ways to read it, because chunk-data can look like chunks
        return
    spec = MODULES[module]
    grammar, text_is = spec["G"], None
    if grammar.matches(rule, text):
        if text.rstrip(" \t") != text and grammar.matches(rule, text.rstrip(" \t")):
            text_is = None  # white space at the end can be whatever follows' instead
        else:
            text_is = "as-written" if spec["X"].matches(rule, text) else "valid"
    elif not grammar.matches(rule, text, False) and not (spec["L"] is not None and spec["L"].matches(rule, text, False)):
        text_is = "invalid"  # otherwise, it's of another case than case-sensitive literals, or something that recipients accept
    if module == "rfc5322" and re.search(r"[\r\n]", text) and rule not in ("FWS", "qtext", "ctext", "atext", "dtext"):
        text_is = None  # folding doesn't occur in a field's value
    if module == "rfc9651" and '%"' in text:
        text_is = None  # Display Strings aren't there
    if text_is is None:
        ctx.count("undecided")
        return
    ctx.seen("module", module)
    ctx.seen("rule-invalid" if text_is == "invalid" else "rule-valid", f"{module}:{rule}")
    ctx.count(text_is)
    exact, insensitive = (bool(p.fullmatch(text)) for p in patterns)
    if text_is == "invalid":
        ctx.expect(not exact, f"{module}.{rule}:false", lambda: f"httplint.syntax.{module}'s {rule} matches {text!r}, which its ABNF doesn't allow")
        return
    ctx.expect(insensitive, f"{module}.{rule}:missed", lambda: f"httplint.syntax.{module}'s {rule} does not match {text!r}, which its ABNF allows")
    if text_is == "as-written":
        ctx.expect(exact, f"{module}.{rule}:missed", lambda: f"httplint.syntax.{module}'s {rule} does not match {text!r} (case-sensitively), which its ABNF allows")


def check(ctx, case):
    module, rule = case["m"], case["r"]
    if "t" in case:
        ctx.distinct_case([module, rule, case["t"]])
        ctx.sample([module, rule, case["t"]])
        judge(ctx, module, rule, case["t"])
        return
    judge(ctx, module, rule, "")
    for code in list(range(256)) + [0x130, 0x131, 0x17F, 0x660, 0x2028, 0x212A, 0xFF10, 0xFF21]:
        judge(ctx, module, rule, chr(code))


def fixed():
    for module, rule in RULES:
        yield {"m": module, "r": rule}


def edit(r, value, other):
    pick = r.randint(0, 8)
    i = r.randrange(len(value) + 1)
    j = min(len(value), i + r.randint(1, 3))
    if pick <= 1:
        return value[:i] + r.choice(SPECIALS) + value[i:]
    if pick == 2:
        return value[:i] + value[j:]
    if pick == 3:
        return value[:i] + r.choice(SPECIALS) + value[i + 1 :]
    if pick == 4:
        return value[:i] + value[i:j] * r.choice([2, 2, 3, 8]) + value[j:]
    if pick == 5:
        return value[:i] + value[i : i + 1] * r.choice([2, 4, 8, 13, 16, 125, 126, 127]) + value[i + 1 :]
    if pick == 6:
        k = r.randrange(len(other) + 1)
        return value[:i] + other[k : k + r.randint(1, 8)] + value[i:]
    if pick == 7:
        return value[:i] + value[i : i + 1].swapcase() + value[i + 1 :]
    return value[:i] + value[i:][::-1] if r.random() < 0.3 else value[:i]


def make(r, module, rule):
    return MODULES[module]["G"].make(r, rule, r.choice([3, 8, 12]))


def gen(rng, ctx):
    rules = list(RULES)
    for n in range(ctx.size):
        if n % len(rules) == 0:
            rng.shuffle(rules)
        module, rule = rules[n % len(rules)]
        text = make(rng, module, rule)
        if rng.random() < 0.55:
            other = make(rng, *rng.choice(rules))
            for _ in range(rng.choice([1, 1, 1, 2])):
                text = edit(rng, text, other)
        yield {"m": module, "r": rule, "t": text[:300]}
