"Which part of the message each note is about."

LINE = set("""
ACCEPT_BAD_SYNTAX ACCEPT_LANGUAGE_BAD_SYNTAX ACCEPT_PATCH_BAD_SYNTAX ACCEPT_POST_BAD_SYNTAX BAD_Q_VALUE BAD_SYNTAX_DETAILED CC_BAD_VALUE_TYPE
CC_MAX_AGE_TOO_LARGE CC_MISCAP CC_SHOULD_NOT_HAVE_VALUE CSD_UNKNOWN_VALUE ENCODING_UNWANTED FIELD_DEPRECATED FIELD_NAME_BAD_SYNTAX FIELD_NAME_ENCODING
FIELD_TOO_LARGE FIELD_VALUE_ENCODING LINK_BAD_ANCHOR LINK_BAD_TYPE LINK_REV REQUEST_HDR_IN_RESPONSE RESPONSE_HDR_IN_REQUEST SERVER_TOO_LONG
SET_COOKIE_ATTRIBUTE_DUP SET_COOKIE_BAD_DATE SET_COOKIE_EMPTY_MAX_AGE SET_COOKIE_LEADING_ZERO_MAX_AGE SET_COOKIE_LIFETIME_TOO_LONG
SET_COOKIE_NON_DIGIT_MAX_AGE SET_COOKIE_NOT_SECURE SET_COOKIE_NO_NAME SET_COOKIE_PARTITIONED_NO_SECURE SET_COOKIE_PREFIX_HOST_BAD_DOMAIN
SET_COOKIE_PREFIX_HOST_BAD_PATH SET_COOKIE_PREFIX_SECURE_MISSING SET_COOKIE_PRIORITY SET_COOKIE_TOO_LARGE SET_COOKIE_UNKNOWN_ATTRIBUTE
SET_COOKIE_UNKNOWN_ATTRIBUTE_VALUE SET_COOKIE_VALUE_TOO_LARGE SET_COOKIE_VERSION TRANSFER_CODING_PARAM UNKNOWN_RANGE UNNECESSARY_HEADER
""".split())
FIELD = set("""
ACCEPT_CH_BAD_TYPE ACCEPT_CH_IN_PLAIN_HTTP ACCEPT_CH_MISSING_VARY ACCEPT_QUERY_BAD_SYNTAX ACCEPT_QUERY_BAD_TYPE AGE_LARGE AGE_NOT_INT
ALTSVC_CLEAR_LIST AVAILABLE_DICTIONARY_BAD_TYPE AVAILABLE_DICTIONARY_MISSING_AE BAD_CDN_CC_TYPE BAD_DATE_SYNTAX BAD_JSON BAD_ORIGIN_SYNTAX
BAD_REPORTING_ENDPOINT_SYNTAX CACHE_GROUPS_BAD_TYPE CACHE_GROUP_INVALIDATION_BAD_TYPE CACHE_GROUP_INVALIDATION_IGNORED CACHE_STATUS
CACHE_STATUS_BAD_PARAM_VAL CACHE_STATUS_UNKNOWN_PARAM CC_CONFLICTING CC_DUP CC_WRONG_MESSAGE CDN_CACHE_CONTROL_PRESENT CHECK_ALL_ZERO
CHECK_POST_BIGGER CHECK_POST_PRE CHECK_POST_ZERO CHECK_SINGLE CL_AND_TE_PRESENT CL_BAD_SYNTAX CL_TOO_LARGE COEP_CREDENTIALLESS
COEP_REPORT_ONLY_DUPLICATE COEP_REPORT_TO_MISSING COEP_REQUIRE_CORP COEP_UNSAFE_NONE CONTENT_LANGUAGE_DUP CONTENT_RANGE_MEANINGLESS
CONTENT_RANGE_MISSING_SLASH CONTENT_RANGE_MISSING_UNIT CONTENT_RANGE_UNKNOWN_LENGTH CONTENT_RANGE_UNSATISFIED_BAD_SC CONTENT_SECURITY_POLICY
CONTENT_TYPE_OPTIONS CONTENT_TYPE_OPTIONS_UNKNOWN COOP_REPORT_ONLY_DUPLICATE COOP_REPORT_TO_MISSING COOP_SAME_ORIGIN COOP_SAME_ORIGIN_ALLOW_POPUPS
COOP_UNSAFE_NONE CORP_CROSS_ORIGIN CORP_SAME_ORIGIN CORP_SAME_SITE CORS_MAX_AGE_INVALID CORS_MAX_AGE_NEGATIVE CORS_PREFLIGHT_REQ_NO_METHOD
CROSS_ORIGIN_EMBEDDER_POLICY_BAD_VALUE CROSS_ORIGIN_OPENER_POLICY_BAD_VALUE CROSS_ORIGIN_RESOURCE_POLICY_BAD_VALUE CSD_PRESENT CSD_UNQUOTED
DATE_CORRECT DATE_INCORRECT DATE_OBSOLETE DEPRECATION_BAD_TYPE DEPRECATION_FUTURE DEPRECATION_PAST DEPRECATION_TRUE DICTIONARY_COMPRESSED_MISSING_VARY
DISPOSITION_FILENAME_PATH_CHAR DISPOSITION_FILENAME_PERCENT DISPOSITION_OMITS_FILENAME DISPOSITION_UNKNOWN DUPLICATE_KEY ENDPOINT_NOT_SECURE
EXPECT_HTTP_1_0 EXPECT_UNKNOWN FRAME_OPTIONS_DENY FRAME_OPTIONS_SAMEORIGIN FRAME_OPTIONS_UNKNOWN HSTS_INVALID HSTS_VALID LINK_BAD_HINT_TARGET
LINK_RESOURCE_HINTS LM_FUTURE LM_PRESENT LOCATION_NOT_ABSOLUTE LOCATION_UNDEFINED MAX_FORWARDS_IGNORED NEL_BAD_STRUCTURE NEL_BAD_TYPE NEL_BAD_VALUE
NEL_CONFIGURED NEL_MISSING_KEY NEL_REPORT_TO_MISSING ORIGIN_MULTIPLE_VALUES PERMISSIONS_POLICY_PRESENT PRAGMA_OTHER PROXY_STATUS
PROXY_STATUS_BAD_PARAM_VAL PROXY_STATUS_UNKNOWN_PARAM RANGE_BAD_SYNTAX RANGE_INVALID RANGE_INVALID_INTEGER RANGE_MISSING_HYPHEN
REFERER_SECURE_TO_DIFFERENT_ORIGIN REFERER_SECURE_TO_INSECURE REFERRER_POLICY_EMPTY REFERRER_POLICY_MULTIPLE REFERRER_POLICY_STRICT
REFERRER_POLICY_UNKNOWN REFERRER_POLICY_UNSAFE REPORT_TO_BAD_STRUCTURE REPORT_TO_BAD_TYPE REPORT_TO_MISSING_KEY SERVER_TIMING_BAD_PARAM
SERVER_TIMING_MISSING_DESC SERVER_TIMING_MISSING_DUR SET_COOKIE_HARDENED SET_COOKIE_NAME_DUP SINGLE_HEADER_REPEAT SPECULATION_RULES_BAD_TYPE
SPECULATION_RULE_NOT_SECURE STRUCTURED_FIELD_PARSE_ERROR SUNSET_PAST TRANSFER_CODING_IDENTITY TRANSFER_CODING_UNWANTED
USE_AS_DICTIONARY_BAD_MATCH_DEST USE_AS_DICTIONARY_BAD_TYPE VARY_ASTERISK VARY_COMPLEX VARY_DUPLICATE VARY_HOST VARY_NEGOTIATE VARY_USER_AGENT
VIA_PRESENT
""".split())
EXACT = {
    '': 'CORS_PREFLIGHT_RESPONSE DATE_CLOCKLESS FRESHNESS_NONE PARTIAL_NOT_REQUESTED STATUS_406_WITHOUT_NEGOTIATION STATUS_412_WITHOUT_PRECONDITION STATUS_416_WITHOUT_RANGE STATUS_417_WITHOUT_EXPECT STATUS_417_WITH_100_CONTINUE STATUS_ALREADY_REPORTED STATUS_BAD_GATEWAY STATUS_BAD_REQUEST STATUS_CONFLICT STATUS_DEPRECATED STATUS_EARLY_HINTS STATUS_EXPECTATION_FAILED STATUS_FORBIDDEN STATUS_GATEWAY_TIMEOUT STATUS_GONE STATUS_IM_A_TEAPOT STATUS_INTERNAL_SERVICE_ERROR STATUS_LOOP_DETECTED STATUS_METHOD_NOT_ALLOWED STATUS_MISDIRECTED_REQUEST STATUS_NETWORK_AUTHENTICATION_REQUIRED STATUS_NOT_ACCEPTABLE STATUS_NOT_FOUND STATUS_NOT_IMPLEMENTED STATUS_PRECONDITION_FAILED STATUS_PRECONDITION_REQUIRED STATUS_REQUEST_ENTITY_TOO_LARGE STATUS_REQUEST_HEADER_FIELDS_TOO_LARGE STATUS_RESERVED STATUS_SERVICE_UNAVAILABLE STATUS_TOO_EARLY STATUS_TOO_MANY_REQUESTS STATUS_UNAVAILABLE_FOR_LEGAL_REASONS STATUS_UNSUPPORTED_MEDIA_TYPE STATUS_UPLOAD_RESUMPTION_SUPPORTED STATUS_VERSION_NOT_SUPPORTED',
    'field-access-control-allow-origin': 'ACAO_MULTIPLE_VALUES CORS_ORIGIN_MATCH CORS_ORIGIN_MISMATCH CORS_ORIGIN_NULL CORS_ORIGIN_STAR',
    'field-access-control-request-headers field-access-control-request-method method': 'CORS_PREFLIGHT_REQUEST',
    'field-age field-date': 'AGE_PENALTY CURRENT_AGE',
    'field-cache-control': 'FRESHNESS_NO_CACHE FRESHNESS_NO_CACHE_NO_VALIDATOR FRESH_MUST_REVALIDATE FRESH_PROXY_REVALIDATE STALE_IF_ERROR STALE_MUST_REVALIDATE STALE_PROXY_REVALIDATE STALE_SERVABLE STALE_WHILE_REVALIDATE STORE_NO_STORE STORE_PRIVATE_AUTH STORE_PRIVATE_CC STORE_PRIVATE_PUBLIC_CONFLICT STORE_PUBLIC_AUTH STORE_PUBLIC_UNNECESSARY STORE_STORABLE STORE_STORABLE_SHARED_ONLY STORE_UNSTORABLE',
    'field-cache-control field-expires': 'CC_AND_EXPIRES',
    'field-content-encoding': 'BAD_BROTLI BAD_GZIP',
    'field-content-length': 'CL_CORRECT CL_INCORRECT',
    'field-content-range': 'PARTIAL_WITHOUT_RANGE',
    'field-content-type': 'CHARSET_MISMATCH CHARSET_UNDECODABLE CONTENT_TYPE_MISMATCH HEADER_SHOULD_NOT_BE_IN_304',
    'field-expires field-last-modified': 'DATE_CLOCKLESS_BAD_HDR',
    'field-last-modified': 'FRESHNESS_HEURISTIC',
    'field-location': 'CREATED_WITHOUT_LOCATION REDIRECT_WITHOUT_LOCATION',
    'field-origin': 'CORS_PREFLIGHT_REQ_NO_ORIGIN',
    'field-user-agent': 'MISSING_USER_AGENT',
    'message': 'CONTENT_NOT_ALLOWED REQUEST_CONTENT_NOT_DEFINED',
    'method': 'CORS_PREFLIGHT_REQ_METHOD_WRONG STORE_METHOD_UNCACHEABLE',
    'status': 'CREATED_SAFE_METHOD NO_DATE_304 STATUS_CODE_NON_NUMERIC STATUS_NONSTANDARD STATUS_PHRASE_ENCODING UNEXPECTED_CONTINUE UPGRADE_NOT_REQUESTED',
    'uri': 'STATUS_URI_TOO_LONG URI_BAD_SYNTAX URI_TOO_LONG',
}
EXACT = {name: subject for subject, names in EXACT.items() for name in names.split()}
