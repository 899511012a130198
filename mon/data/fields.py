"""The fields httplint supports: name -> (messages it's valid in, deprecated).

qr: valid in requests and responses.
"""

FIELDS = {'Accept': ('q', False),
 'Accept-CH': ('r', False),
 'Accept-CH-Lifetime': ('qr', True),
 'Accept-Charset': ('qr', True),
 'Accept-Encoding': ('q', False),
 'Accept-Language': ('q', False),
 'Accept-Patch': ('r', False),
 'Accept-Post': ('r', False),
 'Accept-Query': ('r', False),
 'Accept-Ranges': ('r', False),
 'Access-Control': ('qr', True),
 'Access-Control-Allow-Credentials': ('r', False),
 'Access-Control-Allow-Headers': ('r', False),
 'Access-Control-Allow-Methods': ('r', False),
 'Access-Control-Allow-Origin': ('r', False),
 'Access-Control-Expose-Headers': ('r', False),
 'Access-Control-Max-Age': ('r', False),
 'Access-Control-Request-Headers': ('q', False),
 'Access-Control-Request-Method': ('q', False),
 'Age': ('r', False),
 'Allow': ('r', False),
 'Alt-Svc': ('r', False),
 'Authentication-Info': ('r', False),
 'Authorization': ('q', False),
 'Available-Dictionary': ('q', False),
 'C-Ext': ('qr', True),
 'C-Man': ('qr', True),
 'C-Opt': ('qr', True),
 'C-PEP': ('qr', True),
 'C-PEP-Info': ('qr', True),
 'CDN-Cache-Control': ('r', False),
 'Cache-Control': ('qr', False),
 'Cache-Group-Invalidation': ('r', False),
 'Cache-Groups': ('r', False),
 'Cache-Status': ('r', False),
 'Clear-Site-Data': ('r', False),
 'Connection': ('qr', False),
 'Connectiox': ('qr', False),
 'Content-Base': ('qr', True),
 'Content-DPR': ('qr', True),
 'Content-Disposition': ('qr', False),
 'Content-Encoding': ('qr', False),
 'Content-ID': ('qr', True),
 'Content-Language': ('qr', False),
 'Content-Length': ('qr', False),
 'Content-Location': ('r', False),
 'Content-MD5': ('qr', True),
 'Content-Range': ('r', False),
 'Content-Script-Type': ('qr', True),
 'Content-Security-Policy': ('r', False),
 'Content-Security-Policy-Report-Only': ('r', False),
 'Content-Style-Type': ('qr', True),
 'Content-Transfer-Encoding': ('qr', True),
 'Content-Type': ('qr', False),
 'Content-Version': ('qr', True),
 'Cookie': ('q', False),
 'Cookie2': ('qr', True),
 'Cross-Origin-Embedder-Policy': ('r', False),
 'Cross-Origin-Embedder-Policy-Report-Only': ('r', False),
 'Cross-Origin-Opener-Policy': ('r', False),
 'Cross-Origin-Opener-Policy-Report-Only': ('r', False),
 'Cross-Origin-Resource-Policy': ('r', False),
 'Cteonnt-Length': ('qr', False),
 'DNT': ('qr', True),
 'DPR': ('qr', True),
 'Date': ('qr', False),
 'Default-Style': ('qr', True),
 'Deprecation': ('r', False),
 'Derived-From': ('qr', True),
 'Differential-ID': ('qr', True),
 'Digest': ('qr', True),
 'ETag': ('qr', False),
 'Expect': ('q', False),
 'Expect-CT': ('qr', True),
 'Expires': ('r', False),
 'Ext': ('qr', True),
 'Feature-Policy': ('qr', True),
 'From': ('q', False),
 'GetProfile': ('qr', True),
 'HTTP2-Settings': ('qr', True),
 'Host': ('q', False),
 'If-Match': ('q', False),
 'If-Modified-Since': ('q', False),
 'If-None-Match': ('q', False),
 'If-Range': ('q', False),
 'If-Unmodified-Since': ('q', False),
 'Keep-Alive': ('qr', True),
 'Last-Modified': ('r', False),
 'Link': ('qr', False),
 'Location': ('r', False),
 'MIME-Version': ('qr', True),
 'Man': ('qr', True),
 'Max-Forwards': ('q', False),
 'Method-Check': ('qr', True),
 'Method-Check-Expires': ('qr', True),
 'NEL': ('r', False),
 'Opt': ('qr', True),
 'Origin': ('q', False),
 'P3P': ('r', True),
 'PEP': ('qr', True),
 'PICS-Label': ('qr', True),
 'Pep-Info': ('qr', True),
 'Permissions-Policy': ('r', False),
 'Pragma': ('q', True),
 'ProfileObject': ('qr', True),
 'Protocol': ('qr', True),
 'Protocol-Info': ('qr', True),
 'Protocol-Query': ('qr', True),
 'Protocol-Request': ('qr', True),
 'Proxy-Authenticate': ('r', False),
 'Proxy-Authentication-Info': ('r', False),
 'Proxy-Authorization': ('q', False),
 'Proxy-Features': ('qr', True),
 'Proxy-Instruction': ('qr', True),
 'Proxy-Status': ('r', False),
 'Public': ('qr', True),
 'Public-Key-Pins': ('qr', True),
 'Public-Key-Pins-Report-Only': ('qr', True),
 'Range': ('q', False),
 'Referer': ('q', False),
 'Referer-Root': ('qr', True),
 'Referrer-Policy': ('r', False),
 'Report-To': ('r', True),
 'Reporting-Endpoints': ('r', False),
 'Retry-After': ('r', False),
 'Safe': ('qr', True),
 'Security-Scheme': ('qr', True),
 'Server': ('r', False),
 'Server-Timing': ('r', False),
 'Set-Cookie': ('r', False),
 'Set-Cookie2': ('r', True),
 'SetProfile': ('qr', True),
 'SoapAction': ('q', False),
 'Speculation-Rules': ('r', False),
 'Strict-Transport-Security': ('r', False),
 'Sunset': ('r', False),
 'TCN': ('r', False),
 'TE': ('qr', False),
 'Trailer': ('qr', False),
 'Transfer-Encoding': ('qr', False),
 'URI': ('qr', True),
 'Upgrade': ('qr', False),
 'Use-As-Dictionary': ('r', False),
 'User-Agent': ('q', False),
 'Vary': ('r', False),
 'Via': ('qr', False),
 'Viewport-Width': ('qr', True),
 'WWW-Authenticate': ('r', False),
 'Want-Digest': ('qr', True),
 'Warning': ('r', True),
 'Width': ('qr', True),
 'X-Cache': ('r', False),
 'X-Cache-Lookup': ('r', False),
 'X-Content-Security-Policy': ('qr', True),
 'X-Content-Type-Options': ('r', False),
 'X-Download-Options': ('qr', True),
 'X-Frame-Options': ('r', False),
 'X-Meta-MSSmartTagsPreventParsing': ('qr', True),
 'X-Pad': ('r', True),
 'X-UA-Compatible': ('qr', True),
 'X-Webkit-CSP': ('qr', True),
 'X-XSS-Protection': ('qr', True)}

# other names of the same field handlers
ALIASES = {'_onnection': 'connectiox',
 'cneonction': 'connectiox',
 'from': 'from_field',
 'nncoection': 'connectiox',
 'x-browseralignment': 'x_pad',
 'x-pad-for-netscrape-bug': 'x_pad',
 'x_cnection': 'connectiox',
 'xx-pad': 'x_pad',
 'xxxxxxxxxx': 'connectiox',
 'yyyyyyyyyy': 'connectiox'}

UNNECESSARY = ['x-aspnet-version',
 'x-aspnetmvc-version',
 'x-backend-server',
 'x-content-encoded-by',
 'x-drupal-cache',
 'x-generator',
 'x-mod-pagespeed',
 'x-pingback',
 'x-powered-by',
 'x-rack-cache',
 'x-runtime',
 'x-varnish']
