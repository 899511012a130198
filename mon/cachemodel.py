"""
RFC 9111's storage and freshness rules, written from the specification for the parts of a message that the cache checks generate.
Directives are given as the list of (name, value) that was sent, not as text.
"""

HEURISTIC = {200, 203, 204, 206, 300, 301, 308, 404, 405, 410, 414, 501}


class Model:
    def __init__(self, spec):
        """
        spec: status, method (or None for no request), auth, directives [(lower-case name, value or None)], vary_star,
        date, expires (epoch seconds, None when absent, "bad" when not a date), age (int or None), response_time, request_time,
        lm, etag (bools)
        """
        self.cc = {}
        for name, value in spec["directives"]:
            if name in ("max-age", "s-maxage", "stale-if-error", "stale-while-revalidate"):
                if value is None or not (value.isascii() and value.isdigit()):
                    continue
                value = int(value)
            self.cc.setdefault(name, value)
        self.spec = spec
        self.storage()
        self.freshness()

    def storage(self):
        s, cc = self.spec, self.cc
        self.reason = None
        explicit = (
            "public" in cc or "private" in cc or "max-age" in cc or isinstance(s["expires"], int) or s["status"] in HEURISTIC
        )
        if s["vary_star"]:
            self.private, self.shared, self.reason = False, False, "vary"
        elif s["method"] not in (None, "GET", "HEAD"):
            self.private, self.shared, self.reason = False, False, "method"
        elif "no-store" in cc:
            self.private, self.shared, self.reason = False, False, "no-store"
        elif not explicit and "s-maxage" not in cc:
            self.private, self.shared, self.reason = False, False, "nothing"
        else:
            self.private = explicit
            self.shared = True
            if "private" in cc:
                self.shared = False
            elif s["auth"] and not {"public", "must-revalidate", "s-maxage"} & set(cc):
                self.shared = False

    def freshness(self):
        s, cc = self.spec, self.cc
        if not (self.private or self.shared):
            self.age, self.lifetime_private, self.lifetime_shared, self.explicit = 0, 0, 0, False
            return
        date = s["date"] if isinstance(s["date"], int) else None
        apparent = max(0, int(s["response_time"]) - date) if s["response_time"] and date else 0
        delay = s["response_time"] - s["request_time"] if s["response_time"] and s["request_time"] else 0
        self.age = max(apparent, (s["age"] or 0) + delay)
        self.lifetime_private = self.lifetime_shared = 0
        self.explicit = False
        base = date or (int(s["response_time"]) if s["response_time"] else None)
        if s["expires"] is not None and base is not None:
            self.explicit = True
            life = s["expires"] - base if s["expires"] != "bad" else None  # None: expired
            self.lifetime_private = self.lifetime_shared = life
        if "max-age" in cc:
            self.explicit = True
            self.lifetime_private = self.lifetime_shared = cc["max-age"]
        if "s-maxage" in cc:
            self.explicit = True
            self.lifetime_shared = cc["s-maxage"]
        self.fresh_private = self.lifetime_private is not None and self.lifetime_private > self.age
        self.fresh_shared = self.lifetime_shared is not None and self.lifetime_shared > self.age
