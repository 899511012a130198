"""Writes properties.jsonl and MANIFEST.json from one table. Run after editing it."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, over_text, why, files, mech, level, state=None, observe=None):
    P.append(dict(
        id=pid, title=title, statement=statement, over=over, over_text=over_text, why=why, files=files,
        mech=mech, level=level, state=state, observe=observe,
    ))


HTTP = "HTTP messages as a client of the library may pass them: any bytes in any part"

prop(
    "C01", "Linting always finishes with a result",
    "Whatever bytes a request or response is made of (request line or status line, field names and values, content, trailers) and however "
    "the lifecycle methods are fed, linting never raises an exception, hangs, or writes to standard output or error. Afterwards every "
    "documented result (notes with their summary and detail, parsed fields, lengths, hashes, samples, caching) can be read.",
    ["inputs", "histories"], HTTP + "; with or without a related request, times, trailers, and incomplete content",
    "The tests run each field's parser on a few sample values; the space of malformed input, and of combinations of fields whose values are "
    "used by other checks, is unbounded.",
    ["httplint/message.py", "httplint/field/section.py", "httplint/field/parsers/", "httplint/cache.py", "httplint/note.py"],
    [("parsers catch bad values and report them as notes", "httplint/field/*.py: handle_input"), ("decoding with replacement", "httplint/field/section.py: FieldSection.process")],
    "generated, mutated and hostile messages; any exception, CPU overrun or output is a violation",
)
prop(
    "C02", "Every note is complete and renders in every language",
    "Every note and subnote that linting any message produces has a known category and level and a non-empty summary, and its summary and "
    "detail render to text in English and in every shipped translation, with every placeholder filled in. A language that isn't shipped gets the English text.",
    ["inputs", "configurations"], HTTP + "; in English, Spanish, French, Japanese, Chinese and an unknown language",
    "Tests render a handful of notes; whether a note has the variables its texts use (in each translation) depends on the path that produced it.",
    ["httplint/note.py", "httplint/i18n.py", "httplint/field/", "httplint/translations/"],
    [("notes get variables where they're created", "httplint/note.py: Notes.add"), ("lazy translation", "httplint/i18n.py: translate")],
    "each note produced by generated messages is rendered in six locales and examined",
)
prop(
    "C03", "A note's detail is safe HTML, and message data in it is only text",
    "However a message is made, each note's detail is well-nested HTML that uses only text-level markup without scripts, event handlers or other active content; "
    "nothing taken from the message adds, closes or changes an element, attribute, link or comment in it. Message data shown in the detail reads as the text that was sent, escaped exactly once.",
    ["inputs", "configurations"], "markup, Markdown, entities, attribute break-outs and the renderer's own control characters in every part of a message, in each language",
    "A test can check a few payloads in a few notes; safety has to hold for each of ~300 notes, each place data enters, and each syntax the renderer knows.",
    ["httplint/note.py", "httplint/util.py", "httplint/field/"],
    [("values are replaced by placeholders while Markdown is rendered, and escaped afterwards", "httplint/note.py: Note._get_detail")],
    "payloads planted in each part; details parsed with an independent HTML parser against an allow-list",
)
prop(
    "C04", "Content is accounted for exactly, however it is chunked",
    "However content is split into chunks, the results are the same: the content length and hash are those of all the bytes fed; the decoded length, hash and sample are those of "
    "the decoded content (the sample being its first 8192 bytes), which is also what each processor of decoded content is given, in order; and the notes, parsed fields and caching results don't change. Content-Length is reported as correct exactly when it "
    "equals the number of content bytes, and when told that there is no content to examine, content is counted but nothing else about it is computed or reported.",
    ["inputs", "histories"], "content, codings and chunkings, including empty chunks and chunks that split coded data or characters",
    "The tests feed content whole or in one split; the number of ways to chunk a message is exponential.",
    ["httplint/message.py", "httplint/content_encoding.py", "httplint/charset.py"],
    [("incremental decompression", "httplint/content_encoding.py"), ("bounded sample", "httplint/message.py: _content_sample_processor")],
    "each content is fed in several chunkings to fresh linters, and their states are compared with each other and with hashes computed independently",
)
prop(
    "C05", "Content codings are decoded per their formats, with faults and bombs caught",
    "Content with gzip, x-gzip and br codings (any case, stacked in any order, gzip with any optional header fields or several members) decodes to exactly the original, without a fault being reported; content "
    "with a coding that isn't supported passes through unchanged. Coded data that can't be decoded is reported as a fault of that coding, with how much was decoded before it, and only the valid leading output is used; truncated data alone isn't called corrupt. "
    "No more than 100MB is ever processed as decoded content, exceeding that is reported, and memory use stays bounded however well the content is compressed.",
    ["inputs", "fault_sequences"], "valid streams, corruption and truncation at each position, and decompression bombs",
    "The tests decode a few fixed streams; faults can be at each byte and each chunk boundary.",
    ["httplint/content_encoding.py"],
    [("header parser", "httplint/content_encoding.py: _read_gzip_header"), ("bounded decompression", "httplint/content_encoding.py: feed_content")],
    "streams written from the formats' specifications, damaged at random; compared with zlib and brotli driven byte by byte; resident memory measured",
)

prop(
    "C06", "The order of header fields with different names doesn't matter",
    "Reordering a message's header lines, without changing the relative order of lines with the same name, changes nothing about the result other than which line numbers "
    "(offset-N subjects) refer to a line: the same notes with the same contents and subjects, the same parsed values, and the same caching results, for headers and for trailers.",
    ["inputs"], "messages with two or more fields, valid and not, and permutations of their lines",
    "Fields' checks consult other fields, so each pair of fields is a potential order dependency; the tests mostly use one field in one order.",
    ["httplint/field/section.py", "httplint/message.py", "httplint/field/parsers/", "httplint/cache.py"],
    [("two-phase processing: parse lines, then evaluate fields", "httplint/field/section.py: FieldSection.process")],
    "each message and permutations of it are linted, and results compared with line numbers mapped through the permutation",
)
prop(
    "C07", "Fields are recognised by name, whatever its case, and nothing else is",
    "Each supported field is recognised however its name's letters are cased and with white space around it, with the same notes, parsed value, effect on caching and description, and is shown by its usual name; lines whose names "
    "differ only in those ways are lines of one field. A name that isn't a supported field's (however similar, or an identifier of the implementation) adds no notes but those about its syntax or size, changes no results, and has no description. A line whose name isn't a token is reported as such, and no other is.",
    ["inputs"], "every supported name and alias in random cases; names one edit away and internal identifiers",
    "Names are looked up by transforming them into module names; the tests use names as they're usually written.",
    ["httplint/field/finder.py", "httplint/field/description.py", "httplint/field/section.py", "httplint/cache.py", "httplint/status.py"],
    [("lookup by transformed name", "httplint/field/finder.py: HttpFieldFinder.find_handler_class")],
    "metamorphic: the usual name against recased ones, and near misses against leaving the line out",
)
prop(
    "C08", "A list field means the same however it is divided into lines",
    "For every field whose value is a list (comma-separated lists, Structured Lists and Dictionaries, JSON lists), combining its lines into one with commas, or dividing it at commas that separate members, with any optional white "
    "space around them, changes no note (other than the line it is attributed to), parsed value or caching result; empty members of a comma-separated list are ignored. Commas inside quoted strings, angle brackets, comments and entity-tags don't separate members, so a list of N valid members has N members.",
    ["inputs"], "lists of up to six members of each list-based field and divisions of them into lines",
    "Lists have exponentially many divisions, and what's inside a member decides whether a comma separates; the tests use a few plain lists.",
    ["httplint/field/list_field.py", "httplint/field/utils.py", "httplint/field/structured_field.py", "httplint/field/json_field.py"],
    [("splitting", "httplint/field/utils.py: split_list_field"), ("combining lines", "httplint/field/section.py")],
    "members generated from each field's grammar, in differing divisions, compared with the one-line form",
)

prop(
    "C09", "Notes are attributed to the part of the message they are about",
    "The subject of each note names parts of the message: offset-N is the Nth line of its field section, which has the field that the note names; field-NAME is a field by its lower-case name. Inserting lines of unknown fields before others moves the "
    "line numbers in subjects by exactly as many lines and changes nothing else; and the notes attributed to a line are those it has when it's the only line. Each kind of note is about the kind of part — a line, a field, the status, the method, the URI or the whole message — that its problem is in.",
    ["inputs"], "messages and exchanges of up to seven fields, valid and not, with headers or trailers",
    "Attribution depends on which lines precede and on per-line state kept by field handlers; the tests don't look at subjects of several lines.",
    ["httplint/field/section.py", "httplint/field/list_field.py", "httplint/field/broken_field.py", "httplint/message.py", "httplint/field/cors.py"],
    [("subjects bound while lines are processed", "httplint/field/section.py: FieldSection.process")],
    "subjects resolved against the message's lines; metamorphic: lines shifted, and each line alone",
)
prop(
    "C10", "Fields in the wrong kind of message, and deprecated fields, are reported",
    "Each line of a field that only has meaning in requests (responses) is reported, once, when it's in a response (request), and has no other effect on notes, parsed values, caching or the related message's results. "
    "A line of a field in its right place isn't reported as misplaced, and is reported as deprecated, once, exactly when the field is deprecated. What category a kind of note about a field has doesn't depend on the rest of the message: it is the kind's own, or, if the kind is general, the field's.",
    ["inputs"], "each supported field in both kinds of message, among others",
    "Checks read other fields' values; each must not be led by a value that has no meaning there. The tests place each field in its right message.",
    ["httplint/field/__init__.py", "httplint/field/deprecated.py", "httplint/field/section.py", "httplint/field/parsers/"],
    [("pre-check", "httplint/field/__init__.py: HttpField.pre_check")],
    "metamorphic: messages with and without misplaced lines, against a table of fields",
)

prop(
    "C11", "Whether caches can store a response follows HTTP caching",
    "A response's caching results say that private and shared caches can store it exactly when RFC 9111 Section 3 allows it, given the status code, the request's method, "
    "Authorization, Cache-Control (however its directives are ordered, capitalised, split into lines or quoted), Expires and Vary: *. "
    "The note about storage is the one that matches those results and the reason for them.",
    ["inputs"], "combinations of status, request method, authorization, directives, Expires and Vary, in any arrangement",
    "Storability is a conjunction over half a dozen independent inputs; tests sample a few of the thousands of combinations.",
    ["httplint/cache.py", "httplint/field/parsers/cache_control.py", "httplint/field/parsers/vary.py"],
    [("storage", "httplint/cache.py: ResponseCacheChecker.check_storable")],
    "a model of RFC 9111 written separately, fed with the specification the message was made from",
)
prop(
    "C12", "Age and freshness follow HTTP caching",
    "For a storable response, the age and the freshness lifetimes for private and shared caches are those that RFC 9111 Section 4.2 gives for its Age, Date, Expires, Last-Modified "
    "and Cache-Control and for the times it was requested and received. The notes about freshness, servability when stale, age and clocks are those that match these "
    "results, and the durations in them are right.",
    ["inputs"], "combinations of those fields and times, including those where age equals lifetime and those where a time isn't known",
    "Arithmetic over seven optional inputs, with precedence between them; tests sample a few.",
    ["httplint/cache.py", "httplint/field/utils.py", "httplint/field/parsers/date.py", "httplint/field/parsers/age.py", "httplint/field/parsers/expires.py", "httplint/field/parsers/last_modified.py"],
    [("freshness", "httplint/cache.py: ResponseCacheChecker.check_freshness"), ("age", "httplint/cache.py: ResponseCacheChecker.check_age")],
    "a model of RFC 9111 written separately, fed with the specification the message was made from",
)

prop(
    "C13", "HTTP dates are read as the moments they denote",
    "A Date, Expires, Last-Modified or Sunset value in any of the three HTTP date formats has the POSIX time it denotes as its parsed value, and is reported as obsolete exactly when it isn't in the preferred "
    "format; anything else, including a date that doesn't exist, has no value and is reported as a bad date. If-Modified-Since, If-Unmodified-Since, If-Range and Retry-After values "
    "that are meant to be dates are reported as bad syntax exactly when they aren't in one of those formats, and a Sunset is reported as past exactly when it's before the time of the response.",
    ["inputs"], "dates over the years 1000-9999 in each format, and near-dates with edited parts or characters",
    "Tests read one date in one format; calendars have corner cases (leap years, ends of months), and lenient date parsers read things that aren't HTTP dates.",
    ["httplint/field/utils.py", "httplint/syntax/rfc9110.py", "httplint/field/parsers/date.py", "httplint/field/parsers/expires.py", "httplint/field/parsers/last_modified.py", "httplint/field/parsers/sunset.py"],
    [("date parsing", "httplint/field/utils.py: parse_http_date"), ("grammar", "httplint/syntax/rfc9110.py: HTTP_date")],
    "a date reader written separately judges each value",
)
prop(
    "C14", "A value is reported as bad syntax exactly when its grammar disallows it",
    "For each field whose grammar HTTP (or the field's own specification) defines, a value that conforms to what senders are allowed to generate is never reported as not conforming to its syntax, "
    "and one that recipients aren't expected to accept always is, regardless of optional white space, empty list members and how deep (up to three) its comments nest. "
    "A character that's named as invalid is at the place in the value that's given and pointed at.",
    ["inputs"], "values derived from 62 fields' grammars, and edits of them, including every part of URIs, language tags, mailboxes, dates, comments, quoted strings and parameters",
    "The grammars are verbose regular expressions over hundreds of productions; tests try one or two values of each field.",
    ["httplint/syntax/", "httplint/field/list_field.py", "httplint/field/singleton_field.py", "httplint/field/parsers/"],
    [("grammars", "httplint/syntax/*.py"), ("applied to singletons", "httplint/field/singleton_field.py: SingletonField.finish"), ("applied to list members", "httplint/field/list_field.py: HttpListField.handle_input")],
    "an ABNF interpreter with the specifications' grammars generates values and judges them",
)

prop(
    "C15", "Integers and ranges in fields are read exactly, and nothing else is read as one",
    "A non-negative integer in Age, Content-Length, Access-Control-Max-Age, the max-age of Strict-Transport-Security and the Cache-Control directives that take one is read as "
    "exactly its value, however many digits it has; anything else there (a sign, fraction, separator, white space or digit that isn't ASCII) is reported by that field's own note and isn't read as a number. Range and Content-Range are read as "
    "exactly the positions sent when they match their grammar, and are reported and given no value when they don't. Values above the documented limits of Age, Content-Length and Cache-Control, and ranges that are backwards or outside "
    "the complete length, are reported exactly when they occur.",
    ["inputs"], "integers and near-integers, ranges and near-ranges, in these fields",
    "Tests try one or two bad values per field; Python's int() accepts many things that HTTP doesn't, and limits are only visible at their edges.",
    ["httplint/field/utils.py", "httplint/field/parsers/age.py", "httplint/field/parsers/content_length.py", "httplint/field/parsers/range.py", "httplint/field/parsers/content_range.py", "httplint/field/parsers/cache_control.py",
     "httplint/field/parsers/strict_transport_security.py", "httplint/field/parsers/access_control_max_age.py"],
    [("strict parsing of integers", "httplint/field/utils.py: parse_integer"), ("ranges", "httplint/field/parsers/range.py: range.parse")],
    "values, notes and limits compared with an independent reading of each text",
)
prop(
    "C16", "A field that occurs once uses its first line, and repeats of it are reported",
    "When a field that is defined to occur once (such as Content-Length, Content-Type, ETag, Host or Location) is on more than one line, exactly one SINGLE_HEADER_REPEAT note is about it, "
    "and all other results (its value, other fields, content, caching and other notes) are those of the message with only its first line. When it's on one line it isn't reported as repeated. "
    "A Structured Field that is an Item isn't valid when it's on more than one line.",
    ["inputs"], "any message or exchange, with repeats anywhere after the first line, of the same, another or an invalid value, in headers and trailers",
    "Tests repeat a few fields once, with nothing else in the message; whether the repeats affect other checks depends on what else is there.",
    ["httplint/field/singleton_field.py", "httplint/field/structured_field.py", "httplint/field/section.py", "httplint/cache.py"],
    [("first line wins", "httplint/field/singleton_field.py: SingletonField.finish")],
    "each message is compared with itself without the repeats",
)
prop(
    "C17", "Media types, parameters and q values are read as they are sent",
    "The value of Content-Type, Accept, Accept-Post, Accept-Patch and Content-Disposition has the type and parameters in the field, with names in lower case, and escapes, RFC 8187 encodings and white space removed. "
    "Names that can't be registered or are too long, and parameters that are repeated, single-quoted, or have a wrong extended value, have a note that says so, and others don't. "
    "In Accept, Accept-Language, Accept-Encoding and TE, a q value is reported exactly when it isn't 0 to 1 with up to three decimals.",
    ["inputs"], "types, ranges and parameters of any characters, lengths, quoting, letter case and white space, and any q value",
    "Tests have a few media types; quoting, escapes, percent-encoding, limits of lengths and near-q values are an unbounded space.",
    ["httplint/field/utils.py", "httplint/field/parsers/content_type.py", "httplint/field/parsers/content_disposition.py", "httplint/field/parsers/accept.py", "httplint/field/parsers/accept_language.py",
     "httplint/field/parsers/accept_encoding.py", "httplint/field/parsers/te.py"],
    [("parameters", "httplint/field/utils.py: parse_params")],
    "values and notes are compared with those of the parts they were generated from",
)
prop(
    "C18", "Structured Fields parse as RFC 9651 says, on any number of lines",
    "A field that is defined as a Structured Field is reported as not parsing (STRUCTURED_FIELD_PARSE_ERROR) exactly when RFC 9651's algorithm fails on its lines joined with commas, and otherwise its value is the one that the algorithm has. The part of it that's shown when it fails is of the lines' value, and the place that's pointed at is in it or at its end. "
    "A Dictionary is reported for duplicate keys exactly when a key is on it more than once, and the last member with the key is its value.",
    ["inputs"], "any sequence of characters, divided over any number of lines",
    "Tests check one or two values for each field; how types, parameters, inner lists, limits and near-valid text are read can't be sampled.",
    ["httplint/field/structured_field.py", "httplint/field/parsers/cache_status.py", "httplint/field/parsers/proxy_status.py", "httplint/field/parsers/permissions_policy.py"],
    [("parsing", "httplint/field/structured_field.py: StructuredField.finish")],
    "an independent parser of RFC 9651 decides",
)
prop(
    "C20", "Each status code is explained, and its misuse against the message is reported",
    "A status code that isn't registered, or isn't a number, is reported as that; a registered one has the note that describes it when there's one, and no note about another status code. "
    "Codes that depend on the request's fields or method (100, 101, 201, 206, 405, 406, 412, 416, 417) or the response's (201, 206, 304, 405 and redirects) are reported as misused exactly when what they depend on is missing "
    "(or, in a 304 or 405, shouldn't be there); without a request, only on the response's fields.",
    ["inputs"], "any status code, any request or none, and any fields in both, however they're cased, ordered and divided",
    "Tests check each code once or twice; the combinations with request fields, their absence and unrelated fields aren't covered.",
    ["httplint/status.py", "httplint/message.py"],
    [("status checks", "httplint/status.py: StatusChecker")],
    "notes are compared with those of an independent table of status codes and what they need",
)
prop(
    "C22", "Content and transfer codings that a message can't have are reported",
    "Content is reported as not allowed exactly in responses to HEAD and those with 1xx, 204 and 304 status codes, and as undefined exactly in GET, HEAD, DELETE, CONNECT and TRACE requests. "
    "Content-Length with Transfer-Encoding, identity, parameters on codings, and each coding other than chunked in a response that the request's TE doesn't have, are reported exactly when they occur. "
    "So are expectations other than 100-continue, Expect in HTTP/1.0, and a request without User-Agent.",
    ["inputs"], "any method, status code, content (coded or not, in any chunks), and combination of Content-Length, Transfer-Encoding, TE, Expect and User-Agent",
    "Tests look at a few of these fields alone; which combinations with methods, status codes and content are reported isn't covered.",
    ["httplint/message.py", "httplint/field/parsers/transfer_encoding.py", "httplint/field/parsers/content_length.py", "httplint/field/parsers/expect.py", "httplint/field/parsers/te.py"],
    [("content rules", "httplint/message.py: finish_content"), ("transfer codings", "httplint/field/parsers/transfer_encoding.py")],
    "notes are compared with those that the parts each message was made from should have",
)
prop(
    "C23", "Content is compared with its Content-Type, without false alarms",
    "An image (GIF, JPEG, PNG, WebP or icon) whose Content-Type is another image, audio or video type, and content without the signature of the image type it's declared as, are reported as a mismatch; content that is what it says isn't. "
    "Text and JSON are reported as undecodable exactly when the first 8192 bytes can't be decoded with the declared charset (UTF-8 for JSON), other than for a character that is cut there or by an incomplete message, "
    "and text that is evidently in UTF-8 is reported as a mismatch for a declared single-byte charset; text in the declared charset isn't. Content of responses to HEAD or with 1xx, 204, 205, 206 or 304 status codes, or with a coding that isn't supported, isn't compared.",
    ["inputs"], "any content of the supported kinds, in any chunks and coding, declared as any type and charset",
    "Tests have a handful of contents; false alarms depend on the type, the script, where a character is cut, how it's coded and the status code.",
    ["httplint/content_type.py", "httplint/charset.py", "httplint/message.py", "httplint/content_encoding.py"],
    [("media type", "httplint/content_type.py: verify_content_type"), ("charset", "httplint/charset.py: verify_charset")],
    "content is made from its type, signature and charset, so what should be reported is known",
)
prop(
    "C19", "Cookies are read as browsers read them, and their problems are reported",
    "Each Set-Cookie line's value is the name, value and attributes that RFC 6265's user agent algorithm has for it (dates in any format it allows, default paths, leading dots, letter case and white space included). "
    "Each problem that has a note - a bad date, a Max-Age that is empty, has a leading zero or isn't a number, an empty Domain, unknown, deprecated or repeated attributes, sizes, lifetimes over 400 days, missing Secure, and what the __Secure- and __Host- prefixes require - "
    "is reported for exactly the lines that have it; duplicate names and hardened cookies are named. Cookie is read as pairs divided at semicolons and the first equals sign.",
    ["inputs"], "any Set-Cookie and Cookie lines, base URI and time of the response",
    "Tests have some thirty cookies; the interaction of attributes, their repeats, order, case and white space, dates and limits is unbounded.",
    ["httplint/field/parsers/set_cookie.py", "httplint/field/parsers/cookie.py", "httplint/field/broken_field.py"],
    [("cookies", "httplint/field/parsers/set_cookie.py: loose_parse, loose_date_parse")],
    "an independent implementation of the algorithm decides values and notes",
)
prop(
    "C21", "What the CORS fields mean for an exchange is reported",
    "A request is a CORS preflight exactly when it is OPTIONS with Origin and Access-Control-Request-Method; preflight fields in other requests are reported with what is missing. "
    "A response is noted as one to a preflight, or as having fields that only belong there (all of them named); Access-Control-Allow-Origin is compared with the request's origin, scheme, host and port, as Fetch does (*, null, match, mismatch), and several values are reported. "
    "Origin, the lists, Access-Control-Max-Age and Access-Control-Allow-Credentials parse to what they say, or are reported.",
    ["inputs"], "any exchange with any combination of CORS fields",
    "It depends on two messages, a method and nine fields together; tests have each note once.",
    ["httplint/field/cors.py", "httplint/field/parsers/origin.py", "httplint/field/parsers/access_control_allow_origin.py", "httplint/field/parsers/access_control_max_age.py"],
    [("CORS", "httplint/field/cors.py: check_preflight_request, check_preflight_response, check_access_control_allow_origin")],
    "an independent model of the exchange decides notes and values",
)
prop(
    "C25", "A result depends only on the message, not on what else is linted or where",
    "What a linter shows (notes in their order, with their text, parsed fields, content and caching state) is a function of the operations performed on it and on the message it's related to. "
    "Other messages linted before, meanwhile in the same thread, or at the same time in other threads don't change it, nor do the process, its hash seed, or looking again later; and the fields given to it aren't changed.",
    ["inputs", "schedules", "histories"], "any set of exchanges, any interleaving of the operations on them, in one thread or many, and any hash seed",
    "Tests lint one message at a time in one process; leaks between messages need particular pairs and schedules, and orders of sets need other hash seeds.",
    ["httplint/message.py", "httplint/note.py", "httplint/field/finder.py", "httplint/field/section.py", "httplint/i18n.py"],
    [("per-message state", "httplint/message.py: HttpMessageLinter; httplint/field/finder.py: HttpFieldFinder")],
    "each result is compared with that of linting alone, over interleavings, threads and processes",
)
prop(
    "C26", "A result is in the language of its context, and only the words depend on it",
    "Rendering a note uses the locale that set_locale gives to the current context - nested blocks (restored however they're left), threads and asyncio tasks - whatever others use meanwhile. "
    "The words are those of the language's catalogue (also for regional locales), or English where it has none or the language isn't available. "
    "Linting under a locale gives the same notes, subjects, levels and values as in English; the kinds of message and section in them are translated.",
    ["inputs", "schedules"], "any exchange, any set of locales and any nesting and interleaving of contexts",
    "Tests set one locale in one thread; leaks between contexts depend on schedules, and there are 250 notes in five languages.",
    ["httplint/i18n.py", "httplint/note.py", "httplint/util.py", "httplint/field/section.py"],
    [("locale of the context", "httplint/i18n.py: _locale_var, set_locale, translate"), ("rendering", "httplint/note.py: Note._get_summary, Note._get_detail")],
    "renderings are compared over contexts, and with the catalogues' sources",
)
prop(
    "C28", "The command line reports what the library finds, or that it can't parse",
    "For an HTTP/1.x, 2 or 3 message on standard input, however its content is delimited (length, chunks with extensions and trailers, or the end of the input) and whether it's whole, the command line prints the notes that the library has for the same fields, content, trailers and completeness, "
    "each once under its category with its level and subnotes, in the chosen language and time. "
    "Input that isn't a message that it can parse gives an error on standard error and in the exit status, never silence, notes or a traceback.",
    ["inputs", "faults"], "any bytes on standard input and any options",
    "There is no test of the command line; the result depends on framing, truncation and options together.",
    ["httplint/cli/__init__.py", "httplint/cli/http_parser.py"],
    [("command line", "httplint/cli/http_parser.py: HttpCliParser")],
    "output is compared with the library's result for messages made with known framing",
)
prop(
    "C27", "Finished results survive pickling and copying, and nothing is left behind",
    "A linter that has finished can be pickled with any protocol (and read in another process), copied and deep copied, also with the message it's related to and when it's large: the result shows the same notes, text in each language, parsed values, content and caching results, and the original isn't changed. "
    "Notes and parsed values stay usable after their linter is gone. "
    "Linters that nothing refers to are freed by garbage collection, and linting doesn't accumulate memory from one message to the next.",
    ["inputs", "history"], "any exchange; sequences of many exchanges in one process",
    "Two tests pickle one trivial message; what is lost, shared or kept alive depends on which handlers, notes and references a message created.",
    ["httplint/message.py", "httplint/content_encoding.py", "httplint/field/section.py", "httplint/note.py", "httplint/cache.py"],
    [("state", "httplint/message.py: __getstate__"), ("references", "httplint/field/section.py: FieldSection")],
    "differential comparison of what linters show, live objects and traced memory",
)
prop(
    "C29", "Time and memory are in proportion to the message, whatever is in it",
    "However a field value of up to 8000 bytes is made, linting a message with it takes no more than five seconds of CPU (rendering its notes, ten), and so does a method, URI or other part of the start line of that size; thousands of lines take no more than ten. "
    "Content takes time in proportion to its length and the number of chunks, in any coding and in any state of decoding, however many codings are stacked. "
    "The memory that is held doesn't grow with the length of the content.",
    ["inputs"], "any field value, lines, start line, content, coding and division into chunks",
    "Excessive backtracking and quadratic buffering need inputs that are long and adversarial; tests only have short ones.",
    ["httplint/syntax/rfc9110.py", "httplint/field/singleton_field.py", "httplint/field/list_field.py", "httplint/content_encoding.py", "httplint/message.py", "httplint/field/parsers/content_security_policy.py"],
    [("field syntax", "httplint/syntax"), ("content", "httplint/content_encoding.py: ContentEncodingProcessor")],
    "CPU time and traced memory are measured; limits are at least ten times what the slowest input needs",
)
prop(
    "C35", "Cache-Control directives are explained, each exactly when it applies",
    "However the directives of Cache-Control are ordered, cased and divided into lines, each known one that isn't defined for the kind of message is reported, as is each that is repeated, isn't in lower case, or is a flag with a value, and in a response the first of no-store, no-cache and must-revalidate to make others irrelevant is reported with all of those (no-cache with field names doesn't), as is the effect of pre-check and post-check; unknown ones aren't reported. "
    "Pragma members other than no-cache are reported as undefined, and CDN-Cache-Control members are reported exactly when their type isn't the one that the directive has.",
    ["inputs"], "any combination of directives in a request or response",
    "Each test has one directive or pair; the result depends on which others are there, in what order, case and form.",
    ["httplint/field/parsers/cache_control.py", "httplint/field/parsers/cdn_cache_control.py", "httplint/field/parsers/pragma.py"],
    [("directives", "httplint/field/parsers/cache_control.py: KNOWN_CC, CONFLICTING_CC, evaluate")],
    "notes with their directives are compared with a model of RFC 9111, RFC 5861, RFC 8246 and the Internet Explorer extensions",
)
prop(
    "C31", "Limits on lengths, and bytes outside ASCII, are reported exactly",
    "A field line whose name and value are over 8192 bytes, a field section over 32768 bytes, a request URI over 8000 characters and a Server value over 64 are each reported with the size (and a section, with which it is), and none are at or below their limits, in headers and trailers of requests and responses. "
    "Bytes outside ASCII in a field's name, a field's value or the status phrase are reported for exactly the lines that have them.",
    ["inputs"], "any messages, with lengths concentrated around the limits",
    "Tests have one value far over a limit; an error by one, or in what's counted, shows only at the boundary.",
    ["httplint/field/section.py", "httplint/message.py", "httplint/field/parsers/server.py"],
    [("limits", "httplint/field/section.py: process; httplint/message.py: HttpRequest, HttpResponse")],
    "sizes and non-ASCII lines are computed from the raw input and compared with the notes and their variables",
)
prop(
    "C32", "URIs are mapped, validated, resolved and compared as specified",
    "The URI of a request is its IRI mapped per RFC 3987 (percent-encoded UTF-8, IDNA host, without the fragment), and it is reported as having bad syntax exactly when that isn't a URI. "
    "A relative Location is reported with the URI that RFC 3986 resolution gives, Location is reported as not defined exactly for other statuses than 201 and redirects, Referer is reported by comparing origins (a secure origin to an insecure or different one), and Max-Forwards outside TRACE and OPTIONS is reported as ignored.",
    ["inputs"], "URIs and references of all forms, with any status, method and pair of origins",
    "Tests have a few URIs; the mapping depends on each part and its characters, and resolution on dot segments and which parts are absent.",
    ["httplint/util.py", "httplint/message.py", "httplint/field/parsers/location.py", "httplint/field/parsers/referer.py", "httplint/field/parsers/max_forwards.py", "httplint/syntax/rfc3986.py"],
    [("uris", "httplint/util.py: iri_to_uri; httplint/message.py: HttpRequest.set_iri; parsers' evaluate")],
    "IRIs are built next to the URIs they map to; resolution is a separate implementation of RFC 3986 Section 5.2",
)
prop(
    "C30", "Notes about security policies say what the response's policies do",
    "For any combination of security policy fields in a response, the notes are exactly those that follow from the policies in force: HSTS is valid or not with each reason, its lifetime, scope and suitability for preloading; each unsafe source, duplicate and undefined reporting endpoint of each CSP (enforced or report-only); the effect of COEP, COOP and CORP; framing, sniffing and referrer policies; and what Clear-Site-Data clears. "
    "Case matters exactly where the specifications say so, unknown values are reported as such, and policies in one field don't affect the notes of another, except through Reporting-Endpoints and a policy's report-only counterpart.",
    ["inputs"], "any combination of values of the security policy fields, statuses and schemes",
    "Each test has one field with one value; the notes depend on all directives, their order and case, the scheme, the status, and other fields.",
    ["httplint/field/parsers/strict_transport_security.py", "httplint/field/parsers/content_security_policy.py", "httplint/field/parsers/cross_origin_embedder_policy.py", "httplint/field/parsers/cross_origin_opener_policy.py",
     "httplint/field/parsers/cross_origin_resource_policy.py", "httplint/field/parsers/x_frame_options.py", "httplint/field/parsers/x_content_type_options.py", "httplint/field/parsers/referrer_policy.py", "httplint/field/parsers/clear_site_data.py"],
    [("policies", "httplint/field/parsers: parse, evaluate and post_check of the security fields")],
    "notes, with their parents and variables, are compared with those that a model derives from the parts that the policies were generated from",
)
prop(
    "C33", "Links, reporting endpoints and JSON policies are explained exactly",
    "Every Link is read as its target and parameters and reported exactly when it has rev, an anchor that isn't a URI reference or a type that isn't a media type; preload, preconnect and dns-prefetch links are listed as hints, or reported when their target, resolved against the response's URI, isn't HTTP(S). "
    "Reporting-Endpoints and Speculation-Rules members are reported exactly when they aren't strings or resolve to an insecure URI; NEL and Report-To are read as the JSON that they are, or reported as not JSON, with each missing, mistyped or out of range member; and NEL is reported as configured with exactly the endpoints of clean policies that are defined and secure, and as missing those that aren't defined.",
    ["inputs"], "any combination of links, endpoints and policies",
    "Each test has one link or policy; the result depends on all of them, the base URI, case, types and which endpoints are defined.",
    ["httplint/field/parsers/link.py", "httplint/field/parsers/reporting_endpoints.py", "httplint/field/parsers/nel.py", "httplint/field/parsers/report_to.py", "httplint/field/parsers/speculation_rules.py", "httplint/field/json_field.py", "httplint/util.py"],
    [("links and policies", "httplint/field/parsers: link, nel, report_to, reporting_endpoints, speculation_rules")],
    "notes with their variables, and parsed values, are compared with a model of the parts that the fields were generated from",
)
prop(
    "C36", "Structured members are checked against the types their fields define",
    "The members and parameters of Cache-Status, Proxy-Status, Use-As-Dictionary, Permissions-Policy, Cache-Groups, Cache-Group-Invalidation, Deprecation, Server-Timing, Accept-Query, Accept-CH and Available-Dictionary are reported exactly when their type or value isn't one that the field defines or, for Cache-Status and Proxy-Status, when the parameter isn't known. "
    "What depends on context follows it: Deprecation on the time of the message, Cache-Group-Invalidation on the method and Available-Dictionary on the Accept-Encoding beside it. "
    "Cache-Status and Proxy-Status are described with all their members and parameters in order (those that are known and right in words, others by name), however their members are divided into lines.",
    ["inputs"], "any number of members of any type, in any order and division into lines",
    "Each test has one or two members; the result depends on every member's type and parameters, on repetition and on context.",
    ["httplint/field/parsers/cache_status.py", "httplint/field/parsers/proxy_status.py", "httplint/field/parsers/use_as_dictionary.py", "httplint/field/parsers/permissions_policy.py", "httplint/field/parsers/cache_groups.py", "httplint/field/parsers/cache_group_invalidation.py", "httplint/field/parsers/deprecation.py", "httplint/field/parsers/server_timing.py", "httplint/field/parsers/accept_query.py", "httplint/field/parsers/accept_ch.py", "httplint/field/parsers/available_dictionary.py", "httplint/field/structured_field.py"],
    [("types of members", "httplint/field/parsers: the fields built on Structured Fields")],
    "notes with their variables and descriptions are compared with what the generator of each member says of it",
)
prop(
    "C24", "The parsed value of a valid field is what the field says",
    "When a field is valid, its parsed value in the headers has each of its members in the order sent: coding, language, header and directive names in lower case, parameters by their lower-case names, quoted strings without their quotes and escapes, entity-tags with their weakness and their characters as sent, "
    "weights, seconds and dates as numbers, and challenges, comments and other members as they are. "
    "Optional whitespace, empty members and the division into lines don't change it.",
    ["inputs"], "any number of members, parameters and lines, with quoted strings of any content",
    "The tests give each field one or two values; what is parsed depends on quoting, escapes, commas inside members and letter case together.",
    ["httplint/field/utils.py", "httplint/field/list_field.py", "httplint/field/singleton_field.py", "httplint/field/section.py", "httplint/field/parsers/etag.py", "httplint/field/parsers/accept_language.py", "httplint/field/parsers/cache_control.py", "httplint/field/parsers/www_authenticate.py", "httplint/field/parsers/content_disposition.py"],
    [("values of 44 fields", "httplint/field/parsers: parse(); linter.headers.parsed")],
    "linter.headers.parsed is compared with the value that each field was generated from",
)
prop(
    "C37", "Advice on negotiation, intermediaries and unneeded fields is given exactly",
    "Vary's members that cause trouble, repeat or are more than three, Accept-CH and dictionary codings without the Vary that a storable response then needs, Accept-CH over plain HTTP, codings that the request's Accept-Encoding doesn't accept (weights and * included), repeated languages, unknown range units, weights and parameters of Accept-Language that aren't allowed, clear beside alternative services, intermediaries and unneeded fields are each reported when they are there, and only then. "
    "Letter case, order and the division into lines don't matter.",
    ["inputs"], "any combination of these fields in requests and responses, storable or not",
    "The tests have a case or two of each note; the notes depend on the other message, on storability and on the whole list of members.",
    ["httplint/field/parsers/vary.py", "httplint/field/parsers/accept_ch.py", "httplint/field/parsers/content_encoding.py", "httplint/field/parsers/content_language.py", "httplint/field/parsers/accept_ranges.py", "httplint/field/parsers/accept_language.py", "httplint/field/parsers/accept_encoding.py", "httplint/field/parsers/alt_svc.py", "httplint/field/parsers/via.py", "httplint/field/parsers/tcn.py", "httplint/field/unnecessary.py", "httplint/field/finder.py"],
    [("negotiation notes", "httplint/field/parsers: vary, accept_ch, content_encoding and others")],
    "notes and their variables are compared with a model of the generated exchange",
)
prop(
    "C38", "Trailer fields are their own, and don't change the rest of the message",
    "Adding trailer fields to a message, whatever they are, changes nothing about its headers' text and parsed values, its content, its status or method, its caching results or the message it's related to, and removes or changes none of the notes it has "
    "without them. The notes they add are about them, and the trailers have exactly the sent fields' lines, size and values, which are what the same lines have in headers.",
    ["inputs"], "pairs of header and trailer sections with the same or related fields, in requests, responses and exchanges",
    "Field handlers look at other fields, other notes and the message; tests have trailers for a few fields, on their own.",
    ["httplint/message.py", "httplint/field/section.py", "httplint/field/finder.py", "httplint/field/__init__.py", "httplint/field/parsers/content_security_policy.py", "httplint/cache.py"],
    [("sections", "httplint/message.py: HttpMessageLinter.finish_content"), ("fields", "httplint/field/section.py: FieldSection.process")],
    "differential: the same message without the trailers, and their lines in the headers of another",
)
prop(
    "C39", "Everything shown can be translated, and the translation tools are exact",
    "Extracting messages finds every string that showing notes, categories, words, the command line and the descriptions of fields that have their own looks up in the catalogue. For any catalogues, the translation checker fails exactly when a translation "
    "doesn't have the same variables as its original or can't be formatted with them, and reports exactly those that are missing or fuzzy. Automatic translation replaces exactly the missing and fuzzy ones, keeping the rest, and keeps what's done when the model fails.",
    ["inputs"], "any catalogue of plain, variable and plural messages, with any translations; any answers or failures of the model",
    "There are no tests of the tools; whether a string is found depends on how each of hundreds of classes is written.",
    ["tools/i18n/extractors.py", "tools/i18n/check.py", "tools/i18n/autotranslate.py", "tools/i18n/utils.py", "httplint/i18n.py", "httplint/note.py", "httplint/field/description.py"],
    [("extraction", "tools/i18n/extractors.py: extract_notes"), ("checker", "tools/i18n/check.py: CatalogChecker"), ("translation", "tools/i18n/autotranslate.py: autotranslate_file")],
    "recorded catalogue look-ups against extraction; the tools' reports and files against a model of the generated catalogue, and real formatting",
)
prop(
    "C40", "The published grammar rules match their ABNF",
    "Each rule of httplint.syntax that is named for an ABNF production (as quoted beside it: of RFCs 3986, 5234, 5322, 5646, 5987, 6838, 8288, 9110, 9111, 9112 and 9651), when it's used as documented (as a verbose regular expression that has to match "
    "a whole string), matches every string that the production allows and no other: for any string. Only letters of another case than a literal's, comments nested more than three deep, white space at a string's end, and what the "
    "RFCs let recipients accept besides (e.g., empty list members) are not decided.",
    ["inputs"], "any rule, with strings derived from its production, edited strings, and every single character of Latin-1",
    "Tests only compile the expressions. What each matches depends on alternation, quoting and repetition in hundreds of nested expressions; a slip (such as an unescaped # in a verbose expression) is silent.",
    ["httplint/syntax/rfc3986.py", "httplint/syntax/rfc5234.py", "httplint/syntax/rfc5322.py", "httplint/syntax/rfc5646.py", "httplint/syntax/rfc5987.py", "httplint/syntax/rfc6838.py", "httplint/syntax/rfc8288.py",
     "httplint/syntax/rfc9110.py", "httplint/syntax/rfc9111.py", "httplint/syntax/rfc9112.py", "httplint/syntax/rfc9651.py"],
    [("rules", "httplint/syntax/*: the module-level expressions"), ("list rule", "httplint/syntax/rfc9110.py: list_rule")],
    "every match of a rule against an independent ABNF interpreter's decision",
    observe=["the module-level names of httplint.syntax.*"],
)

NOT_APPLICABLE = []


def main():
    root = HERE
    with open(os.path.join(root, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in P:
            anchors = {
                "files": p["files"],
                "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                "observe_at": p["observe"] or ["public attributes of HttpRequestLinter and HttpResponseLinter"],
                "hook_needed": None,
            }
            if p["state"]:
                anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["over_text"]},
                "why_tests_cant": p["why"], "anchors": anchors,
            }) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(root, "mon", "checks", p["id"].lower() + ".py")):
            print("no check:", p["id"])
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"./check.sh {p['id']} --tier quick",
            "thorough_cmd": f"./check.sh {p['id']} --tier thorough",
            "technique": "runtime monitoring: seeded workloads on the real code, judged by an independent oracle (" + p["level"] + ")",
            "level": "exploration",
            "level_note": "held on the executions generated from the seed; what was observed is in the evidence file",
        })
    manifest = {
        "version": 1,
        "setup_cmd": "./setup.sh",
        "checks": checks,
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks: the monitors observe public attributes. Commits in /repo are fixes of defects the monitors found (known-findings.txt).",
    }
    with open(os.path.join(root, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(manifest, fh, indent=1)
        fh.write("\n")


main()
