TESTS = 'The existing tests sample a handful of fixed values; '

prop('C01', 'Built URLs route back to the endpoint and values they came from',
     '''For every endpoint and every tuple of argument values that the
     endpoint's route accepts, the URL that is built from them, after the web
     server has percent-decoded its path, is routed to the same endpoint with
     equal values.  This holds for relative and external URLs, for every
     converter, for script roots, subdomains and hosts.  The built URL
     consists of URL characters only.''',
     ['inputs', 'configurations'],
     'all argument values of every converter, all routes, script roots and '
     'subdomains; bounds on value length in the harness docstrings',
     TESTS + 'a value with an unusual character (dot segments, slashes, '
     'percent signs, newlines, non-ASCII) or number only fails when built '
     'and then matched.',
     ['verktyg/routing.py', 'verktyg/urls.py'],
     [('URLMapAdapter.build', 'verktyg/routing.py'),
      ('URLMapAdapter.match', 'verktyg/routing.py'),
      ('BaseConverter.to_url / to_python', 'verktyg/routing.py')],
     '''build() is executed on symbolic values, the result is percent-decoded
     by the standard library as a server would, and match() is executed on
     the symbolic path; the assertion is equality of endpoint and values.''')

prop('C02', 'A route matches exactly the paths that its rule describes',
     '''A route matches a path if and only if the whole path reads as the
     rule's static text with each variable replaced by text its converter
     accepts, and the values returned are exactly that text, converted.
     Anything else is reported as not found, and a path that only lacks the
     trailing slash is redirected.  A host or subdomain rule matches only its
     own host.  MapAdapter.test agrees with match.  Neither earlier matches
     nor the converters of other URL maps make a difference.''',
     ['inputs', 'configurations'],
     'all paths up to the bound, over the listed rules and all converters',
     TESTS + 'a path that is wrongly matched (trailing newline, extra '
     'segment, out of range number) or wrongly refused has to be guessed.',
     ['verktyg/routing.py'],
     [('Route.match', 'verktyg/routing.py'),
      ('Route.compile', 'verktyg/routing.py'),
      ('converters', 'verktyg/routing.py')],
     '''match() is executed on symbolic paths against an independent reading
     of the rule language in the harness (no regular expressions shared).''')

prop('C03', 'The most specific matching route wins in any registration order',
     '''When several routes match a path the more specific one wins: static
     text before converters, converters with a smaller weight before larger,
     and longer rules before shorter.  The result does not depend on the
     order in which routes were added or on earlier matches, nor on what
     other threads do at the same time.''',
     ['inputs', 'configurations', 'histories', 'schedules'],
     'all permutations of up to four competing routes, all paths up to the '
     'bound, lookups interleaved with additions; for two threads making the '
     'first requests, every point at which the second can get its turn',
     TESTS + 'the order of registration and of earlier lookups is fixed in '
     'each test.',
     ['verktyg/routing.py'],
     [('Route.match_compare_key', 'verktyg/routing.py'),
      ('URLMap.update', 'verktyg/routing.py')],
     '''The permutation is a symbolic choice and the path is symbolic; the
     winner is compared with the specification's.''')

prop('C04', 'Router redirects stay on the same site and lead to the page',
     '''Every redirect raised while matching (missing slash, default values,
     alias, explicit redirect) goes to an absolute URL with the request's
     scheme and host below the script root, keeps the query string, and
     following it leads to the requested page without redirecting again.
     No path can make the redirect leave the site.''',
     ['inputs', 'configurations'],
     'all paths and query strings up to the bound; all redirect kinds',
     TESTS + 'an open redirect or a redirect loop needs a particular path '
     '(leading slashes, dot segments, reserved characters).',
     ['verktyg/routing.py'],
     [('URLMapAdapter.make_redirect_url', 'verktyg/routing.py'),
      ('URLMapAdapter.get_default_redirect', 'verktyg/routing.py'),
      ('URLMapAdapter.make_alias_redirect_url', 'verktyg/routing.py')],
     '''match() is executed on symbolic paths, the URL of the redirect is
     parsed by the harness and matched again, symbolically.''')

prop('C05', 'URL building consumes all values and picks a suitable route',
     '''Building a URL succeeds exactly if some route of the endpoint accepts
     the given names and values; the route chosen is one that does.  Every
     given value appears in the URL, as part of the path or host or in the
     query string, None values are dropped, and list values keep all their
     items.  Rule factories (submounts, subdomains, prefixes, templates)
     produce the same rules as writing them out.''',
     ['inputs', 'configurations'],
     'all sets of up to two required and two extra values up to the bound',
     TESTS + 'combinations of missing, extra, None, list and default values '
     'are not enumerated.',
     ['verktyg/routing.py'],
     [('URLMapAdapter.build', 'verktyg/routing.py'),
      ('Route.suitable_for', 'verktyg/routing.py'),
      ('Route.build', 'verktyg/routing.py'),
      ('RouteFactory', 'verktyg/routing.py')],
     '''build() is executed with symbolic presence and values; query string
     and path are parsed by the standard library and compared.''')

prop('C06', 'Binding to a request finds its subdomain, path and script root',
     '''Binding a URL map to a WSGI environment uses the host, port, script
     root, path and query of that request: a host that is not below the
     configured server name never gets the default or a real subdomain's
     routes, default ports are ignored, and matching without an explicit path
     matches the path of the request.  An explicit subdomain wins, and text
     is decoded by the charset and error method of the map.''',
     ['inputs'],
     'all Host values up to the bound around the server name, all paths up '
     'to the bound',
     TESTS + 'host confusion needs particular host names (suffixes, ports, '
     'case).',
     ['verktyg/routing.py', 'verktyg/wsgi.py'],
     [('URLMap.bind_to_environ', 'verktyg/routing.py'),
      ('get_host', 'verktyg/wsgi.py')],
     '''bind_to_environ() and match() are executed on environments with
     symbolic host, path and query.''')

prop('C07', 'Requests reach a binding with their name and method, or fail',
     '''Looking up a name and method returns a binding registered under that
     name and method, the one added last if they are equally good; HEAD falls
     back to GET.  If the name is known but the method is not, the error
     lists exactly the methods that would work; if the name is unknown the
     lookup fails as not implemented.  Views are bound to exactly the methods
     they name, nested dispatchers behave as if their bindings were added
     directly, and actions get the arguments unchanged.''',
     ['inputs', 'configurations', 'histories'],
     'all sets of up to four bindings over names and methods, in any order',
     TESTS + 'only a few fixed sets of bindings are tried.',
     ['verktyg/dispatch.py', 'verktyg/views.py', 'verktyg/exceptions.py'],
     [('Dispatcher.lookup', 'verktyg/dispatch.py'),
      ('View.get_bindings', 'verktyg/views.py')],
     '''Names and methods of the bindings are symbolic choices; the result is
     compared with an independent specification.''')

prop('C08', 'Content negotiation selects the representation clients prefer',
     '''For every set of representations and every set of accept headers, the
     representation chosen is the best acceptable one: the most specific
     range gives the quality, zero means never, content type decides before
     language, language before charset and charset before the server's own
     preference.  If none is acceptable the request fails as not acceptable.
     The order of ranges in a header and the case of values do not matter,
     and headers which are malformed are ignored and never an error.''',
     ['inputs', 'configurations'],
     'all sets of up to 3 representations and up to 3 ranges with all '
     'quality values within the bounds',
     TESTS + 'the space of headers times representations is only sampled.',
     ['verktyg/accept/__init__.py', 'verktyg/accept/_base.py',
      'verktyg/accept/content_type.py', 'verktyg/accept/language.py',
      'verktyg/accept/charset.py'],
     [('select_representation', 'verktyg/accept/__init__.py'),
      ('Acceptability', 'verktyg/accept/_base.py')],
     '''Headers are assembled from symbolic ranges and quality digits, the
     negotiation code is executed on them and its choice compared with an
     independent specification.''')

prop('C09', 'Accept headers survive serialising and parsing',
     '''Parsing an accept header and serialising it gives a header that
     parses to the same ranges, qualities and parameters.  Content types
     likewise survive serialising and parsing.''',
     ['inputs'],
     'all headers of up to 2 ranges with names up to the bound',
     TESTS + 'round trips fail on particular combinations of wildcards, '
     'parameters and quality values.',
     ['verktyg/accept/_base.py', 'verktyg/accept/content_type.py',
      'verktyg/accept/language.py', 'verktyg/accept/charset.py'],
     [('parse_accept_header', 'verktyg/accept/content_type.py'),
      ('to_header', 'verktyg/accept/_base.py')],
     '''Parsing and serialising are executed on headers of symbolic
     characters.''')

prop('C10', 'Exceptions reach the handler registered for their nearest class',
     '''The handler found for an exception is one registered for its class or
     the nearest base class that has an acceptable one, whatever the order of
     registration; there is none exactly if no base class has one.  Among
     handlers of the same class content negotiation picks.  Nested
     dispatchers behave as if their handlers were registered directly, and
     keep their own handlers.''',
     ['inputs', 'configurations'],
     'all sets of up to four handlers over a small class hierarchy in any '
     'order',
     TESTS + 'a few fixed hierarchies are tried.',
     ['verktyg/exception_dispatch.py'],
     [('ExceptionDispatcher.lookup', 'verktyg/exception_dispatch.py')],
     '''Classes and order of the handlers are symbolic choices; the result is
     compared with an independent specification.''')

prop('C12', 'Header values survive quoting and list, dict and option syntax',
     '''Every header text value survives quoting and unquoting, and every
     list, set, dictionary or option header that is produced from values
     parses back to the same values; no value can disturb its neighbours.
     What is left unquoted is a token.''',
     ['inputs'],
     'all header text values up to the bound',
     TESTS + 'injection through quotes, backslashes, commas and equal signs '
     'depends on their position.',
     ['verktyg/http/basic.py'],
     [('quote_header_value', 'verktyg/http/basic.py'),
      ('unquote_header_value', 'verktyg/http/basic.py'),
      ('parse_list_header', 'verktyg/http/basic.py'),
      ('parse_dict_header', 'verktyg/http/basic.py'),
      ('parse_options_header', 'verktyg/http/basic.py')],
     '''Dumping and parsing are executed on symbolic characters over all
     header text and must be inverse to each other.''')

prop('C13', 'Cookies survive the round trip and cannot inject anything',
     '''A cookie that is set with any text as its value is sent back by the
     browser and parsed to the same text, also among other cookies.  Neither
     the value nor the path can add attributes, other cookies or header
     lines; the attributes asked for are the ones sent.  Deleting a cookie
     sends one that has expired.  Any Cookie header can be parsed; a
     malformed or undecodable cookie does not disturb the others.''',
     ['inputs', 'histories'],
     'all values, paths and Cookie header texts up to the bound; all '
     'combinations of attributes',
     TESTS + 'an injection or a lost value needs one particular sequence of '
     'special characters.',
     ['verktyg/http/cookies.py', 'verktyg/responses.py',
      'verktyg/requests.py'],
     [('dump_cookie', 'verktyg/http/cookies.py'),
      ('parse_cookie', 'verktyg/http/cookies.py'),
      ('BaseResponse.set_cookie / delete_cookie', 'verktyg/responses.py')],
     '''dump_cookie() runs on symbolic values; the harness plays the browser
     (RFC 6265 5.2) and sends the pair back through parse_cookie().''')

prop('C14', 'Range headers are parsed strictly and served exactly',
     '''A Range header is understood exactly if it is a list of valid,
     ascending ranges; anything else is ignored without an error.  For one
     range and a known length, the range served holds exactly the positions
     that were asked for and exist, and is refused if there are none.
     Content-Range headers are parsed strictly, can not describe impossible
     ranges, and both kinds survive writing and parsing.''',
     ['inputs'],
     'all header texts up to the bound, all positions and lengths below '
     '10^12',
     TESTS + 'boundary positions and odd header texts are too many to list.',
     ['verktyg/http/cache_control.py'],
     [('parse_range_header', 'verktyg/http/cache_control.py'),
      ('Range.range_for_length', 'verktyg/http/cache_control.py'),
      ('ContentRange', 'verktyg/http/cache_control.py')],
     '''The parser runs on symbolic text against an independent reading of
     RFC 7233; range_for_length() runs on symbolic integers and each
     position is an integer variable of the assertion.''')

prop('C15', 'Entity tags are quoted, parsed and compared correctly',
     '''Any entity tag survives quoting and unquoting, weak or strong, and a
     list of tags is parsed to exactly the tags it holds; strong comparison
     never accepts a weak tag, weak comparison accepts both, and the
     wildcard accepts anything.  Every header text can be parsed in finite
     time.''',
     ['inputs'],
     'all tags, lists of tags and header texts up to the bound',
     TESTS + 'confusions between weak and strong tags or of separators '
     'within tags need particular lists.',
     ['verktyg/http/cache_control.py'],
     [('quote_etag / unquote_etag', 'verktyg/http/cache_control.py'),
      ('parse_etags', 'verktyg/http/cache_control.py'),
      ('ETags', 'verktyg/http/cache_control.py')],
     '''Tags and kinds are symbolic; the parsed result is compared with the
     list the header was written from.''')

prop('C16', 'A 304 is sent exactly when the copy of the client is current',
     '''A conditional GET or HEAD request is answered with 304 and without a
     body or entity headers exactly if its copy is current: if the response
     has an entity tag and the request has If-None-Match then by weak
     comparison of the tags, otherwise if the response has not been modified
     since If-Modified-Since, to the second.  Other methods and malformed
     headers never lead to a 304.''',
     ['inputs', 'configurations'],
     'all tags up to the bound, all combinations of headers and methods, '
     'dates that differ in any second or minute',
     TESTS + 'a stale page served once for a combination of tag, date and '
     'method is not found by examples.',
     ['verktyg/http/cache_control.py', 'verktyg/responses.py'],
     [('is_resource_modified', 'verktyg/http/cache_control.py'),
      ('ETagResponseMixin.make_conditional', 'verktyg/responses.py')],
     '''make_conditional() runs on a response and environment with symbolic
     tags and dates; the status is compared with the oracle.''')

prop('C31', 'HTTP dates are written in one form and read in all three',
     '''Every date and time is written as the fixed-length RFC 1123 text of
     that instant in GMT with the right day of the week, whatever type it is
     given as; this text and the two obsolete forms are read as the same
     instant, with numeric time zones applied.  Texts that are not dates or
     name impossible dates are read as no date, without an error.''',
     ['inputs'],
     'all days of selected years, all times of day, all numeric zones, all '
     'texts up to the bound',
     TESTS + 'a wrong day, century or zone shows only for some dates.',
     ['verktyg/http/basic.py'],
     [('http_date', 'verktyg/http/basic.py'), ('parse_date', 'verktyg/http/basic.py'),
      ('cookie_date', 'verktyg/http/cookies.py')],
     '''Year, month, day and time of day are symbolic integers; the text is
     compared with an independent calendar in the harness.''')

prop('C11', 'A request gets one response, and everything opened is closed',
     '''An application answers every request with exactly one response, in
     which case its views receive what was matched and its middleware runs
     in the order in which it was added.  Exceptions which a handler is
     bound for become that handler's response; all others reach the server.
     However a request ends -- normally, with an exception, or because the
     client goes away at any point of the body -- the response body, the
     request and the callbacks registered on both are closed exactly
     once.  An application does not change when its builder is changed
     later.''',
     ['histories', 'configurations', 'inputs', 'faults'],
     'all outcomes of the view, all sets of handlers, all points at which '
     'the client leaves, all path segments up to the bound',
     TESTS + 'leaks show only for a particular order of failures.',
     ['verktyg/application.py', 'verktyg/responses.py', 'verktyg/wsgi.py',
      'verktyg/views.py'],
     [('BaseApplication.__call__', 'verktyg/application.py'),
      ('ApplicationBuilder', 'verktyg/application.py'),
      ('BaseResponse.close / call_on_close', 'verktyg/responses.py'),
      ('ClosingIterator', 'verktyg/wsgi.py')],
     '''The outcome of the view, the handlers and the behaviour of the
     client are symbolic choices; the harness is the server and counts what
     is closed.''')

prop('C17', 'Responses as WSGI applications: status, headers and body agree',
     '''What the server receives from a response is its status, its headers
     and the parts of its body in order, encoded with its charset; HEAD
     requests and statuses without a body send none.  A content length that
     is sent is the number of bytes of the body.  Status code and status
     line always agree, locations are absolute and stay on the path they
     name, text types carry a charset, and the output of any other
     application can be taken over without losing anything.  Body iterables
     are closed once, however much of them was read.''',
     ['inputs', 'histories', 'faults'],
     'all bodies, statuses, locations and types up to the bound; all points '
     'at which the client leaves',
     TESTS + 'a wrong length or lost part shows only for certain kinds and '
     'characters of a body.',
     ['verktyg/responses.py', 'verktyg/wsgi.py'],
     [('BaseResponse', 'verktyg/responses.py'),
      ('run_wsgi_app', 'verktyg/test.py'),
      ('ResponseStreamMixin', 'verktyg/responses.py')],
     '''Parts of the body, codes, lines and locations are symbolic; the
     harness plays the server and decodes what it is given.''')

prop('C18', 'Limited streams and bodies: exactly the body and never more',
     '''Reading the body of a request by any mix of operations and sizes
     gives exactly the bytes of the body, in order, and never reads past its
     end from the connection.  Without a valid content length there is no
     body unless the server terminates the input.  A connection that ends
     early is reported as such and not as a short body.''',
     ['inputs', 'histories', 'faults'],
     'all bodies up to the bound, all pairs of operations with any sizes, '
     'all points at which the connection ends',
     TESTS + 'reading one byte too many blocks the server only for certain '
     'sizes.',
     ['verktyg/wsgi.py', 'verktyg/requests.py'],
     [('LimitedStream', 'verktyg/wsgi.py'),
      ('get_input_stream', 'verktyg/wsgi.py'),
      ('BaseRequest.get_data', 'verktyg/requests.py')],
     '''Sizes and lengths are symbolic integers, the bytes symbolic; the
     stand-in connection records every read.''')

prop('C19', 'Lines and chunks do not depend on how the data is cut',
     '''Iterating over the lines or separated chunks of text or bytes gives
     the same result however the data is cut into pieces or buffered: joined
     together they are the data up to the limit, each line ends where
     splitlines ends it and each chunk at the separator.  Files are passed
     on and saved completely in blocks of any size.''',
     ['inputs', 'schedules'],
     'all data up to the bound, cut in all ways, all buffer sizes and '
     'limits',
     TESTS + 'errors at the border of a buffer need a separator right '
     'there.',
     ['verktyg/wsgi.py', 'verktyg/http/basic.py'],
     [('make_line_iter', 'verktyg/wsgi.py'),
      ('make_chunk_iter', 'verktyg/wsgi.py'),
      ('FileWrapper', 'verktyg/wsgi.py'),
      ('FileStorage', 'verktyg/http/basic.py')],
     '''Data and cuts are symbolic; the result is compared with the lines
     and chunks of the data as a whole.''')

prop('C20', 'Secured file names are harmless whatever the client sent',
     '''secure_filename turns any text into a name which is ASCII only, has
     no directory part, is neither hidden nor special, and keeps harmless
     characters; securing it again changes nothing.''',
     ['inputs'],
     'all names up to the bound',
     TESTS + 'a traversal needs one particular sequence of characters.',
     ['verktyg/utils.py'],
     [('secure_filename', 'verktyg/utils.py')],
     '''The name is symbolic; every character of the result is an
     assertion.''')

prop('C21', 'Shared files: only exported files are served, completely',
     '''SharedDataMiddleware serves exactly the files at or below the
     exported directories under their own paths, with their content, length
     and modification time, and passes every other request on unchanged.  No
     path leaves an exported directory, disallowed names are not served, and
     conditional requests get a 304 only when the copy of the client is
     current.''',
     ['inputs', 'configurations'],
     'all paths up to the bound, several exports and rules, all entity tags '
     'and dates near that of the file',
     TESTS + 'traversals need one particular path.',
     ['verktyg/wsgi.py'],
     [('SharedDataMiddleware', 'verktyg/wsgi.py')],
     '''The path is symbolic; the file system is a stand-in which records
     what is opened and is walked by an independent oracle.''')

prop('C22', 'Mounted applications get exactly the requests below their mount',
     '''A request goes to the application with the longest mount point that
     is a prefix of whole segments of its path, or to the main one; script
     name and path are split exactly there and together stay what they
     were.''',
     ['inputs', 'configurations'],
     'all paths up to the bound, all sets of up to 3 mount points',
     TESTS + 'confusions of prefixes need particular mount points and '
     'paths.',
     ['verktyg/wsgi.py'],
     [('DispatcherMiddleware', 'verktyg/wsgi.py'),
      ('get_script_name / get_path_info', 'verktyg/wsgi.py')],
     '''The path is symbolic; the split is compared with an oracle over
     segments.''')

prop('C23', 'Only trusted hosts are accepted',
     '''A host is trusted exactly if the name a client would connect to is
     one of the trusted names, or ends in whole labels with a trusted one
     that allows subdomains; ports make no difference and nothing else in
     the header does.  get_host takes the forwarded host, the Host header or
     the server name in this order, and fails for those not trusted.''',
     ['inputs', 'configurations'],
     'all hosts up to the bound, and all texts around trusted hosts',
     TESTS + 'a bypass is one particular text.',
     ['verktyg/wsgi.py'],
     [('host_is_trusted', 'verktyg/wsgi.py'), ('get_host', 'verktyg/wsgi.py')],
     '''The host is symbolic and taken apart by an independent reading of
     RFC 3986 in the harness.''')

prop('C24', 'Credentials and challenges survive the trip in the headers',
     '''Basic credentials are read as exactly the user name and password
     that were sent, digest credentials as exactly their fields; a header
     that is malformed or incomplete gives no credentials, and never an
     error.  A challenge that is set replaces the one before, is written such
     that it is read back unchanged, realm, nonce, opaque, qop and domain as
     quoted strings, and the response and its header stay in step.''',
     ['inputs'],
     'all user names, passwords, field values and header texts up to the '
     'bound',
     TESTS + 'colons, quotes and padding in the wrong place are found by '
     'search.',
     ['verktyg/http/auth.py', 'verktyg/responses.py', 'verktyg/requests.py'],
     [('parse_authorization_header', 'verktyg/http/auth.py'),
      ('parse_www_authenticate_header', 'verktyg/http/auth.py'),
      ('WWWAuthenticate', 'verktyg/http/auth.py')],
     '''Values and headers are symbolic; an independent writer and reader in
     the harness are compared with the code.''')

prop('C25', 'Cache directives: header, accessors and callbacks agree',
     '''After any sequence of changes to the cache directives of a response
     its Cache-Control header reads back as exactly those directives, and
     those of a request are what its header says, whatever their spacing
     and order.  Dicts with callbacks call back after every change and
     only then.''',
     ['inputs', 'histories'],
     'all sequences of changes up to the bound, all values',
     TESTS + 'a stale header needs one particular sequence of changes.',
     ['verktyg/http/cache_control.py', 'verktyg/datastructures.py',
      'verktyg/responses.py'],
     [('parse_cache_control_header', 'verktyg/http/cache_control.py'),
      ('ResponseCacheControl', 'verktyg/http/cache_control.py'),
      ('UpdateDictMixin', 'verktyg/datastructures.py')],
     '''Changes are symbolic choices and values; the header is compared with
     a plain dict after each one.''')

prop('C26', 'Immutable structures never change and hash consistently',
     '''No public operation changes an immutable structure: each of the
     operations that would raises TypeError and leaves it as it was, and
     changing what was read from it does not either.  Equal structures have
     equal hashes; copies are equal, mutable copies are independent.''',
     ['histories', 'inputs'],
     'all changing operations on all structures up to the bound',
     TESTS + 'a forgotten method shows only when it is called.',
     ['verktyg/datastructures.py', 'verktyg/http/basic.py',
      'verktyg/http/auth.py', 'verktyg/http/cache_control.py'],
     [('ImmutableDictMixin / ImmutableMultiDictMixin / ImmutableListMixin',
       'verktyg/datastructures.py'),
      ('ImmutableHeadersMixin', 'verktyg/http/basic.py')],
     '''Content and operation are symbolic; the structure is compared with
     its content before.''')

prop('C27', 'Multi dicts behave like a list of key and value pairs',
     '''After any sequence of operations a multi dict, ordered multi dict or
     combined multi dict gives the same keys, values, lists, lengths and
     equalities as a plain list of the pairs put in; ordered ones keep the
     order of all pairs.  They can be created from and converted to every
     kind of mapping, copied and pickled without losing values.''',
     ['histories', 'inputs'],
     'all sequences of operations up to the bound on all dicts up to the '
     'bound',
     TESTS + 'a lost value needs one particular sequence of operations.',
     ['verktyg/datastructures.py'],
     [('MultiDict', 'verktyg/datastructures.py'),
      ('OrderedMultiDict', 'verktyg/datastructures.py'),
      ('CombinedMultiDict', 'verktyg/datastructures.py')],
     '''The operations, keys and values are symbolic choices; after each one
     all accessors are compared with the list.''')

prop('C28', 'Headers behave as a list of pairs whose names ignore case',
     '''After any sequence of operations Headers give the same pairs, values
     and lengths as a plain list of pairs whose names are compared without
     case.  No value with a newline can get into them in any way, and a
     refused value changes nothing.''',
     ['histories', 'inputs'],
     'all sequences of operations up to the bound, all values up to the '
     'bound',
     TESTS + 'a newline that gets in needs one particular way to set it.',
     ['verktyg/http/basic.py'],
     [('Headers', 'verktyg/http/basic.py'),
      ('remove_entity_headers / remove_hop_by_hop_headers',
       'verktyg/http/basic.py')],
     '''Operations, names and values are symbolic; after each one all
     accessors are compared with the list.''')

prop('C29', 'Requests report exactly what the environment says',
     '''Headers, method, path, root, query arguments, flags, addresses,
     lengths, types and the body of a request are what the WSGI environment
     says, for any environment: percent-encoded UTF-8 is decoded once,
     malformed numbers and lists are treated as missing, and no value makes
     an attribute fail.''',
     ['inputs'],
     'all environments with values up to the bound',
     TESTS + 'unusual values of one variable are too many to list.',
     ['verktyg/requests.py', 'verktyg/http/basic.py', 'verktyg/wsgi.py'],
     [('BaseRequest', 'verktyg/requests.py'),
      ('EnvironHeaders', 'verktyg/wsgi.py')],
     '''The variables of the environment are symbolic; each attribute is
     compared with a rule of the harness.''')

prop('C30', 'Conversions between URIs and IRIs keep the meaning of urls',
     '''Converting an url from IRI to URI and back, and fixing or rebuilding
     the url of a request, keeps its meaning: the same host and the same
     sequence of delimiters and bytes in every component; URIs are ASCII and
     valid, and converting a second time changes nothing.  Text and bytes
     survive the passage through a WSGI environment.''',
     ['inputs'],
     'all components up to the bound',
     TESTS + 'a changed meaning needs one particular character or escape.',
     ['verktyg/urls.py', 'verktyg/wsgi.py'],
     [('iri_to_uri / uri_to_iri / url_fix', 'verktyg/urls.py'),
      ('get_current_url', 'verktyg/wsgi.py')],
     '''Components are sequences of symbolic literals and escapes; the
     result is tokenized by the harness and compared token by token.''')

prop('C32', 'Header sets behave as ordered sets that ignore case',
     '''After any sequence of operations a HeaderSet holds the same items in
     the same order as a plain list without duplicates that ignores case,
     all its accessors agree with each other, and its header is read back as
     the same set.  The sets of a response and its headers stay in step.''',
     ['histories', 'inputs'],
     'all sequences of 3 operations on all sets up to the bound',
     TESTS + 'inconsistent sets need a particular sequence.',
     ['verktyg/http/basic.py', 'verktyg/responses.py'],
     [('HeaderSet', 'verktyg/http/basic.py'),
      ('parse_set_header', 'verktyg/http/basic.py')],
     '''Operations and items are symbolic; after each one all accessors are
     compared with the list.''')

prop('C33', 'Redirects and aborts lead where they should, inject nothing',
     '''redirect answers with the code asked for and a Location that means
     the location given, and neither header nor body contain anything it
     injects; append_slash_redirect leads to the same site, path and query
     with a slash added.  abort raises exactly the exception for the code,
     response or mapping, and every HTTP exception has the code and name of its
     status and the description it was given.''',
     ['inputs'],
     'all locations and paths up to the bound, all codes',
     TESTS + 'injections and open redirects need one particular location.',
     ['verktyg/utils.py', 'verktyg/exceptions.py'],
     [('redirect / append_slash_redirect', 'verktyg/utils.py'),
      ('Aborter', 'verktyg/exceptions.py'),
      ('HTTPException', 'verktyg/exceptions.py')],
     '''Locations, paths and codes are symbolic; the header is resolved by
     the harness and the body is unescaped by a reader of HTML.''')

prop('C34', 'Attributes of responses and their headers always agree',
     '''Every attribute of a response that stands for a header reads what
     the header says and writes what is read back as the same value; setting
     one does not change others, deleting it removes the header.  Malformed
     headers read as missing, no value can bring newlines into a header.
     Cached properties are computed once for each object.''',
     ['inputs', 'histories'],
     'all values up to the bound',
     TESTS + 'one wrong attribute among many shows only for particular '
     'values.',
     ['verktyg/responses.py', 'verktyg/utils.py'],
     [('CommonResponseDescriptorsMixin', 'verktyg/responses.py'),
      ('header_property', 'verktyg/utils.py'),
      ('cached_property', 'verktyg/utils.py')],
     '''Values and headers are symbolic; attribute and header are compared
     after each change.''')

prop('C35', 'The test client sends exactly the requests that were described',
     '''The environment built for a request holds exactly the path, query,
     headers, host, root, form fields, files and body described, in whatever
     way they are given: what is decoded from it is what was put in, and its
     lengths and types are right.  The client follows redirects as a browser
     would, reports loops and refuses other sites, sends back exactly the
     cookies that are set, and closes files and responses.''',
     ['inputs', 'histories', 'configurations'],
     'all paths, names, values and contents up to the bound; all graphs of '
     'redirects between three pages',
     TESTS + 'a test client which alters unusual requests hides bugs.',
     ['verktyg/test.py', 'verktyg/http/basic.py'],
     [('EnvironBuilder', 'verktyg/test.py'),
      ('stream_encode_multipart', 'verktyg/test.py'),
      ('Client', 'verktyg/test.py'),
      ('FileStorage', 'verktyg/http/basic.py')],
     '''The parts of the request are symbolic; the environment is decoded by
     readers of urlencoded and multipart forms in the harness.''')

prop('C36', 'Uploaded files are what was uploaded',
     '''A FileStorage reads as its stream.  Saving it, to a path or to an open
     file, with any size of buffer, writes exactly what was not yet read of
     it, wherever the stream was; it closes the file it opened itself even
     when writing fails, and never those of the caller.  The names are those
     given, or that of the stream unless that is a placeholder like
     "<stdin>"; type, parameters and length are those of its headers; files
     share nothing with each other.''',
     ['inputs', 'histories', 'faults'],
     'all contents, positions, names and types up to the bound; writing '
     'fails at any block',
     TESTS + 'lost data shows only for partly read streams, particular '
     'sizes, or a full disk.',
     ['verktyg/http/basic.py'],
     [('FileStorage', 'verktyg/http/basic.py')],
     '''Contents, positions and names are symbolic; streams, targets and
     open are stand-ins which record what was done.''')

prop('C37', 'Requests served at the same time do not notice each other',
     '''Two requests that one application serves in two threads, whichever of
     them is interrupted and wherever, get the responses they get alone:
     routes, bindings, exception handlers, converters, mounted applications
     and urls are looked up for the request that asked.  This includes the
     first requests an application serves, requests that a view makes to its
     own application before it returns or raises, and responses that are
     sent part by part in turns.''',
     ['schedules', 'inputs', 'histories'],
     'every line of verktyg executed for one request, at which the other '
     'thread gets its turn and keeps it; all pairs of the listed requests',
     'No existing test uses two threads, and none could choose the moment '
     'at which one of them is interrupted.',
     ['verktyg/application.py', 'verktyg/routing.py', 'verktyg/dispatch.py',
      'verktyg/exception_dispatch.py', 'verktyg/accept/_base.py',
      'verktyg/wsgi.py'],
     [('BaseApplication.__call__', 'verktyg/application.py'),
      ('URLMapAdapter.match / build', 'verktyg/routing.py'),
      ('URLMap.update', 'verktyg/routing.py'),
      ('Dispatcher.lookup', 'verktyg/dispatch.py'),
      ('ExceptionDispatcher.lookup', 'verktyg/exception_dispatch.py'),
      ('DispatcherMiddleware', 'verktyg/wsgi.py')],
     '''The point at which the first thread is interrupted is a symbolic
     number of executed lines; the second request is then served by a real
     thread, and the results of both are compared with those of requests
     served one after the other.''')
