"What decides each property, for tools/design.py: (oracle, what is left undecided or was corrected)."

NOTES = {
    "C01": (
        "Messages from three sources: generated (valid fields, mutated values, hostile bytes and names, hundreds of fields, odd lifecycles), those of every other check (mon/borrow.py), and values spelled with the literals of httplint's own source. The monitor hooks stdout and stderr, a CPU limit per case and every documented result (notes, their text in each language, parsed values, lengths, hashes, samples, caching). Any exception, output or overrun is a violation.",
        "Calling the lifecycle out of order isn't part of it, other than omitting content or trailers.",
    ),
    "C02": (
        "Each note and subnote is rendered in English, four other languages, an unknown one and none: it has a category and level, its summary isn't empty, no placeholder of the text is left in it (other than one that the message has), an unknown language gives English, and a translated detail is empty only if the English one is. The classes, categories and levels seen are counted, and the run needs most of the Note classes.",
        "Whether a translation says the same as the English isn't decided, and neither is whether there is one.",
    ),
    "C03": (
        "Values carrying a random marker inside HTML, Markdown, entity and URL attacks are placed wherever messages hold text; details are parsed with html.parser, and every element, attribute and URL scheme has to be one that the note's own text (rendered with a harmless value) has. The marker has to come out as text with the characters that were sent.",
        'Markdown emphasis inside code spans was a finding (fixed). Values that a note changes by design (lower case, truncation) are compared after that change.',
    ),
    "C04": (
        'The same content is fed whole, byte by byte, in even pieces and cut at random (with empty chunks); lengths, hashes, samples and notes are compared between those, and with hashlib and len of what was fed and of what was encoded.',
        'Notes that show the failing chunk are compared by name when decoding fails.',
    ),
    "C05": (
        'The check writes gzip members (RFC 1952, each combination of optional header fields, several members, padding), Brotli and stacks of them, and damages or cuts them at any byte; zlib and brotli, driven directly, say what can be decoded and whether there is a fault. Bombs are fed with the resident memory and the decoded length watched.',
        "When a byte of the gzip header is damaged (other than the magic and method), where the data starts isn't known, so it isn't judged.",
    ),
    "C06": (
        "Permutations of fields with different names (the relative order of one field's lines is kept) must give the same notes, parsed values and caching. Subjects of notes are mapped through the permutation.",
        "Order of notes of equal rank isn't compared.",
    ),
    "C07": (
        'Each known name in random case must behave as its canonical name; names that differ by a character, prefix or punctuation must not be recognised; names with the characters of Python module names (underscores, dots, dunder) must not reach anything.',
        '',
    ),
    "C08": (
        'For every list field, Structured List and Dictionary, and JSON field: random division into lines, empty members and white space; notes (by name and variables) and parsed values must equal those of the single line.',
        "Set-Cookie isn't a list. Received-by values of Via that have commas or parentheses are left out, as they make the list ambiguous.",
    ),
    "C09": (
        "Each note's subject has to be a part that the message has (a line that is there, a field that is there, the status, the URI, the content); a line's notes are compared with those that it has when it is alone, and after unknown lines are inserted before it.",
        'Lines of headers and trailers have the same offsets, so messages have only one of them.',
    ),
    "C10": (
        "Lines of fields that only the other kind of message has (by a table from the specifications) are added to messages: each has to have one note that says so, and nothing else that the linter shows can change. Deprecated fields have to be reported, and fields in their place can't be.",
        "Accept-Encoding has a meaning in both (RFC 9110), and isn't used.",
    ),
    "C11": (
        'mon/cachemodel.py, written from RFC 9111, decides storability for shared and private caches from the directives that were sent (not their text); notes and store_shared/store_private are compared.',
        "An invalid Expires on a status without a heuristic isn't decided.",
    ),
    "C12": (
        'The same model gives age, freshness lifetime, staleness and their notes and variables; clock skew, Age, Date, Expires, request and response times vary around the boundaries.',
        "Heuristic freshness of statuses that aren't heuristically cacheable with public isn't decided.",
    ),
    "C13": (
        'A reader of the three formats written from RFC 9110 and the calendar; the parsed value has to be the moment that it gives, and everything that it refuses has to be reported, in each of the eight fields.',
        "Dates that are right but for letter case aren't decided (recipients can accept them), and neither are two-digit years whose century depends on today's date.",
    ),
    "C14": (
        "mon/grammar.py has the ABNF of each field, written from the RFCs, and an interpreter of it that works on sets of positions (so it doesn't backtrack); values are derived from the grammar, or realistic, or either with edits. A value is judged when the sender's grammar and the recipient's (which allows white space that senders can't send, and some obsolete forms) agree.",
        "What only recipients have to allow (white space around =, empty parameters) isn't decided, nor are comments nested deeper than three.",
    ),
    "C15": (
        "Digits of any length, signs, fractions, separators, other digits, white space and quotes; a regular expression for integers and Python's own arithmetic say what is reported and parsed, and likewise for ranges and their order.",
        "Lists in a Range with empty members, units other than bytes, and Cache-Control's limit itself aren't judged.",
    ),
    "C16": (
        'Messages are linted before and after lines of fields that occur once are added: values and notes have to be those of the first lines, with one SINGLE_HEADER_REPEAT per field.',
        'A false alarm was corrected: lines of a Structured Field Item that join into one string are read as RFC 9651 says.',
    ),
    "C17": (
        'The generator knows the type, parameters and weights that it writes and what is wrong with each; the parsed value and the notes have to say that.',
        "Parameters without a value aren't generated.",
    ),
    "C18": (
        'mon/sf.py is a parser written from RFC 9651; whether the field parses, its value and its duplicate keys are compared.',
        'Values where RFC 8941 and RFC 9651 differ are counted as undecided.',
    ),
    "C19": (
        'The algorithms of RFC 6265 (cookie date, name-value pair, attributes, default path), with those of 6265bis for prefixes and limits, give the cookie that is stored and the notes on it.',
        'Dates whose reading depends on the order of tokens in ways that the specification and strptime differ on are undecided.',
    ),
    "C20": (
        "A table of what each code requires of the request, the fields and the version; each registered code, unregistered ones and text that isn't a code are sent with each of those present and absent.",
        'Without a request, only what the response shows is judged.',
    ),
    "C21": (
        'A model of CORS (Fetch) over requests, preflights and responses says which notes there are and what they show.',
        "A response to a request whose Origin isn't valid, or is repeated, isn't judged as a match or mismatch.",
    ),
    "C22": (
        'Methods, status codes, content and codings are combined; expectations are computed from RFC 9110 and 9112.',
        '',
    ),
    "C23": (
        "Content with each signature and text in each charset is sent with each Content-Type; the check knows whether the type is one that can be recognised and whether the content decodes (with Python's codecs over the whole of what was sampled).",
        "CHARSET_MISMATCH is judged only where the text can't be the same in both charsets; types without a signature can't be judged.",
    ),
    "C24": (
        'Fields are generated along with the value they denote; linter.headers.parsed must be equal to it.',
        "Parameters without values, and whitespace around =, aren't generated.",
    ),
    "C25": (
        'Messages are linted alone, and then with others: interleaved in one thread, in threads that switch every few bytecodes, and in new processes with other hash seeds and in other orders; what they show has to be the same. Thread switches between operations are counted from a log.',
        '',
    ),
    "C26": (
        "Notes are rendered in nested contexts, threads and asyncio tasks, each with its own locale; the words have to be those of the translation catalogue's source for that locale (or English), and linting under a locale can't change anything but words.",
        '',
    ),
    "C27": (
        'Results are pickled (each protocol), copied and deep copied, alone and as a pair, before and after being looked at, and read here and in new processes; then the linters are dropped while notes and values are kept, with weak references, gc and tracemalloc saying what is left.',
        'A reference cycle through the caching result is collected by gc, and tolerated.',
    ),
    "C28": (
        "What main() and a new process print for an input is compared with the library's result for the same message, read with the check's own parser of what it wrote; input that isn't HTTP has to give an error and a status other than zero.",
        "Origin-form targets in request mode aren't decided.",
    ),
    "C29": (
        "CPU time of one value and one message, and traced memory of long content, have limits at least ten times what the slowest input needs now; parts of valid values, pairs of delimiters and httplint's literals are pumped in every field, and members, lines and chunks are multiplied.",
        "Quadratic time within one field value of at most 8000 bytes is tolerated; constant factors aren't judged.",
    ),
    "C30": (
        'Models of HSTS, CSP, COOP, COEP, CORP, Referrer-Policy, X-Frame-Options and nosniff from their specifications.',
        'CSP sources with a comma inside quotes, and http: hosts, are undecided.',
    ),
    "C31": (
        'Lines, sections, URIs and Server values below, at and above their limits, and names, values and phrases with other bytes; sizes are counted by the check.',
        '',
    ),
    "C32": (
        "RFC 3986's grammar (generated from) and algorithms (resolution), percent-encoding and IDNA are in the check; each URI, reference and origin is made along with what it should become.",
        "Origin-form targets aren't decided.",
    ),
    "C33": (
        'Links, reporting endpoints, NEL and Report-To are generated with what should be said of them.',
        "JSON with repeated names isn't judged.",
    ),
    "C35": (
        'A model of which notes each directive, conflict, repeat and misplacement has, and of what CDN-Cache-Control defines.',
        "When a directive has both a bare and a valued form, which one counts isn't decided.",
    ),
    "C36": (
        'Members and parameters are generated with the type that the field defines or another one; notes, their variables and what descriptions list have to follow.',
        "Tokens in Proxy-Status details, and error parameters, aren't decided.",
    ),
    "C37": (
        'Exchanges are generated along with the notes that apply; storability comes from mon/cachemodel.py.',
        "Vary: * with other members as complex, aliases (x-gzip) and identity aren't judged.",
    ),
    "C38": (
        'Each message is run with and without the trailers, and with their lines in the headers of another; everything but what the trailers add has to be the same.',
        '',
    ),
    "C39": (
        "Catalogue look-ups are recorded by replacing gettext's methods, and compared with what the repository's own extraction finds; the checker and the translator run on generated catalogues with a stand-in for the model.",
        'Whether the catalogues in the repository are complete, the generic descriptions of deprecated fields, and automatic translation of plurals.',
    ),
    "C40": (
        "The ABNF of eleven documents (mon/rules.py) is interpreted by mon/grammar.py, which works on sets of positions and shares nothing with regular expressions. Strings are derived from each production (all its alternatives and repetitions at random), edited, or single characters; what the production says is compared with the match of the rule, case-sensitively for strings as written and without regard to case for the others. Each of the 298 rules has to be seen matching and not matching.",
        "Display Strings aren't in httplint's rfc9651; rfc9112's start-line and chunk-ext are compared with the ABNF quoted there (RFC 7230's), and Link's white space around = isn't decided.",
    ),
}
