"""The properties and how each is decided; properties.jsonl and MANIFEST.json
are generated from this (tools/gen_manifest.py)."""
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))


TV = "TLA+ specification, TLC model checking and TLC trace validation of recorded executions"
FN = "TLA+ operator as the specification of the function; TLC compares every recorded call with it"

prop("C01", "Session identity is unique, stable and shared by copies",
     "Every newly created session gets an identifier that no other session created in the process has or had, also when many threads create sessions at once, and starts open. "
     "A copy or an assignment has the identifier and the closed mark of its source; equality and order follow the identifier; a closed session stays closed and closing one copy does not close others. "
     "A session map reports a session as present exactly while it has been created there and not released since.",
     ["schedules", "histories"], "every interleaving of session creation and every sequence of copy, assign, close, compare and map operations",
     "The tests create a few sessions in one or a few threads; uniqueness is over all interleavings and all histories of copies.",
     ["include/metaproxy/session.hpp", "src/session.cpp"],
     [("global counter under a mutex", "Session::Session()"), ("map under a mutex", "session_map")],
     technique=TV,
     note="Counter protocol model checked for 3 threads; thousands of generated histories and about a million concurrently created sessions of the real class validated. Trusts the harness's count of duplicates.")

prop("C02", "A chain delivers packages to its filters in order, each exactly once",
     "Moving along a chain yields its filters in the order they were appended, each once (a filter appended twice comes twice), then nothing for ever after; a route name given to a chain is ignored. "
     "Positions are independent: creating, cloning, moving or destroying one never affects another, and a clone continues from where its source stood. "
     "A package moved along the chain is handed itself, synchronously, to exactly the next filter, or to none at the end.",
     ["histories", "configurations"], "every chain, every interleaving of position and package operations, arbitrarily nested",
     "The tests walk one chain of two filters once.",
     ["src/router_chain.cpp", "src/package.cpp"],
     [("position as iterator with clone", "RouterChain::Pos"), ("Package::move", "src/package.cpp")],
     technique=TV,
     note="Order and independence model checked over all short behaviours; generated behaviours replayed in the real classes and the recordings validated.")

prop("C03", "Named routes: packages go to the route they are sent to, and only there",
     "In a configured router a package starts in the start route and visits the filters of its route in order; moving it to a named route continues at the first filter of that route, and what follows is that route, not the previous one. "
     "Moving to a route that does not exist reaches no filter and leaves the position where it was. "
     "Positions and packages are independent, clones continue from their source's place, and the end of a route is final until a named route is entered.",
     ["histories", "configurations"], "every routing table and every history of moves, clones and nested moves",
     "The tests load a handful of fixed configurations and hardly move packages through them.",
     ["src/router_flexml.cpp", "src/package.cpp"],
     [("route and filter iterators", "RouterFleXML::Pos::move"), ("clone", "RouterFleXML::Pos::clone")],
     technique=TV,
     note="As C02, with up to four routes whose names are prefixes of each other, unknown routes, and nested moves.")

prop("C04", "A configuration is accepted exactly when it is well formed and resolvable",
     "Loading a configuration succeeds exactly when: the root, an optional dlpath, start, optional filters and routes come in that order in metaproxy's namespace and nothing else; elements carry only their known attributes; every filter type exists; filter ids and route ids are not repeated; every refid names a defined filter; the start route and every route named one level below a filter exist. "
     "When it succeeds, every filter element has been instantiated and configured exactly once, in document order and with its own element, and each route consists of its references and inline filters in document order, nested groups flattened. "
     "When it fails nothing is left behind.",
     ["configurations", "inputs"], "every configuration document",
     "The tests load about ten documents.",
     ["src/router_flexml.cpp", "src/xmlutil.cpp"],
     [("parse_xml_*", "src/router_flexml.cpp"), ("check_routes_in_filters", "src/router_flexml.cpp")],
     technique=FN,
     note="The loader is transcribed as a TLA+ function over documents; thousands of random documents, most with one or two faults, are loaded by the real code and compared.")

prop("C05", "Filters are configured, started, stopped and destroyed as configured",
     "Starting a router starts every filter occurrence in every route, once per occurrence and in route order; stopping it passes the signal to the same occurrences in the same way; filters that no route uses are neither started nor stopped. "
     "Filters are told whether the configuration is only being tested. "
     "Every filter lives until its router is destroyed and is then destroyed exactly once; chains start and stop their filters in order.",
     ["configurations", "histories"], "every configuration and sequence of start and stop",
     "No test observes start and stop of configured routers.",
     ["src/router_flexml.cpp", "src/router_chain.cpp", "src/filter.cpp"],
     [("start/stop loops", "RouterFleXML::start, RouterChain::start"), ("shared ownership", "RouterFleXML::Route")],
     technique=TV,
     note="Random valid configurations with shared filters, empty and multiple routes; recorded life cycles validated.")

prop("C06", "The filter factory binds each type name to one creator",
     "A type name is bound by the first registration and keeps that creator until it is dropped; creating an unbound type fails with the not-found error, creating a bound one calls its creator and no other. "
     "Registration, dropping and the existence test report truthfully what they did. "
     "A module is loaded only for an unbound name, from the process itself first and else from the given directory, and every documented filter type is built in.",
     ["histories"], "every sequence of registrations, drops, lookups, creations and module loads",
     "Tests register two creators and create each once.",
     ["src/factory_filter.cpp", "src/factory_static.cpp"],
     [("creator map", "FactoryFilter::Rep"), ("add_creator_dl", "src/factory_filter.cpp")],
     technique=TV,
     note="Generated histories, each replayed in a process of its own with real shared objects; includes modules without the expected symbol.")

prop("C07", "A package keeps its identity; derived packages share only route position and log",
     "A package has its own session, request and response: nothing done to another package or to its route changes them, and a move leaves them to the filters. "
     "Copying filter state from a package takes over its position (as a copy) and its log (shared), copying the route takes over only the position. "
     "Text written to a log by any package sharing it appears once and in order in what any of them collects; collecting detaches only the collecting package, and without a log, writing and collecting do nothing.",
     ["histories"], "every history of package, routing and log operations, arbitrarily nested",
     "Tests build single packages.",
     ["src/package.cpp"],
     [("copy_filter/copy_route", "src/package.cpp"), ("shared PackageLogger", "src/package.cpp")],
     technique=TV,
     note="Generated behaviours with three packages; routing, log and content recorded and validated.")

prop("C08", "HTML parsing is lossless and reports tags, attributes and text exactly",
     "The parser's events are a function of the document alone: text, opening and closing tags, attributes with their value and quote, comments, declarations and processing instructions are reported in document order as the HTML tokenisation it implements says; inside a script element everything up to its closing tag is text. "
     "Writing the events back reproduces the document except for white space inside tags (and a missing final quote); no other character is lost, repeated or moved. "
     "It never reads outside the document, and a document's outcome does not depend on those parsed before with the same parser.",
     ["inputs"], "every document",
     "Seven fixed documents are tested.",
     ["src/html_parser.cpp"], [("parse_str, tagAttrs, tagEnd", "src/html_parser.cpp")],
     technique=FN,
     note="Losslessness model checked on the specification for all token strings up to a length; the real parser compared with it on all short strings over 10 characters and tens of thousands of longer ones, under AddressSanitizer.")

prop("C09", "URL recipes substitute exactly the referenced metadata",
     "The result of a URL recipe is the recipe's literal text with every ${...} and %{...} replaced by the text of the last metadata element of the named type (an optional md- prefix is ignored, a missing element is empty), after the regular-expression replacement given in brackets, first match only or all with g, ignoring case with i. "
     "%{...} output is URI-encoded so that only unreserved characters appear besides percent escapes; a backslash keeps }, ], / and [ from ending their part; an unfinished reference ends with the recipe.",
     ["inputs"], "every recipe and record",
     "A dozen recipes over one record are tested.",
     ["src/url_recipe.cpp"], [("url_recipe_handle", "src/url_recipe.cpp")],
     technique=FN,
     note="Regular expressions are covered for literals, ., \\s, \\d, *, +, ?, one group, ^ and $; boost's engine is trusted beyond that.")

prop("C10", "Configuration values are read exactly as written, unknown attributes are refused",
     "Text of an element is the concatenation of its own text; a boolean is true exactly for 'true' or '1', a number is its leading integer, and an element that does not begin with text yields the default. "
     "Attribute parsing gives every listed attribute its value, empty when absent, and refuses an element with any attribute not listed; an element that must be empty is refused when it has child elements; names are matched together with the namespace where one is asked for. "
     "Stepping among children skips exactly the nodes of other kinds.",
     ["inputs"], "every element",
     "Only indirectly exercised by configuration tests.",
     ["src/xmlutil.cpp"], [("get_text, get_bool, get_int, parse_attr, check_empty, jump_to*", "src/xmlutil.cpp")],
     technique=FN,
     note="Random elements with mixed content; every public function compared with its TLA+ operator, under AddressSanitizer. Numbers up to nine digits.")

prop("C11", "The client address of a package is never replaced by forwarded ones",
     "The peer address and the listening address given first stay the address and the bind address of an origin whatever forwarding headers add later; the printed form starts with the most remote address known (0 if none), followed by the latest connection number and the custom session tag if one is set. "
     "The socket limit reads back as set, and a copy prints and answers like its original.",
     ["histories"], "every sequence of address, tag and limit updates",
     "One update sequence is exercised through other tests.",
     ["src/origin.cpp"], [("set_tcpip_address, get_address, get_bind_address", "src/origin.cpp")],
     technique=TV,
     note="Property of the model checked exhaustively over short histories; generated histories replayed in the real class.")

prop("C20", "virt_db: databases reach exactly their targets, result sets stay right",
     "A search, scan or present in a virtual session reaches a back end of the route of the first map whose pattern matches the (case folded) database name, opened with exactly the targets configured for the databases named (each once); unknown databases and combinations over different routes are answered with diagnostics 235 and 23 and reach no back end. "
     "A result set of a client is the one its last successful search of that name made: present is answered from the back end session holding it, unknown sets give diagnostic 30, a refused replacement 21, and no other result set and no other client is affected. "
     "Every request gets one answer with its reference id, and closing a session closes each of its back end sessions.",
     ["histories", "inputs"], "every configuration, sequence of requests of several clients, and back end behaviour including failures and closing",
     "Tests of this filter need YAZ++ and cover a handful of dialogues without back ends.",
     ["src/filter_virt_db.cpp", "src/util.cpp"], [("Frontend::search, present, scan, init_pkg; Rep::get_frontend, release_frontend", "src/filter_virt_db.cpp")],
     technique=TV,
     note="Model of a client and failing back ends checked exhaustively up to four requests; thousands of generated dialogues against scripted back ends recorded and validated, under AddressSanitizer.")

prop("C21", "multi: every target is asked once and the answers are merged losslessly",
     "A session initialised with several virtual hosts opens one back end session per virtual host, on the route and with the credentials of the first matching target element; a search or scan goes once to each of them with that target's databases. "
     "The hits of a search are the sum; the merged result set holds each target's records in their order (one target after the other, or taking turns), so presents return exactly the records at the positions asked for, labelled with their target, whatever ranges were asked before; scan terms are merged in order with summed counts. "
     "Failures are reported, or hidden as configured unless every target fails; closing the session closes all of its back end sessions.",
     ["histories", "inputs", "schedules"], "every number of targets, hit counts, request sequence and target behaviour",
     "The test needs YAZ++ and checks that the filter can be created.",
     ["src/filter_multi.cpp"], [("Frontend::init, search, present, scan, FrontendSet::round_robin, serve_order", "src/filter_multi.cpp")],
     technique=TV,
     note="Properties of the merge proved over all counts in a bound by TLC; thousands of dialogues with up to four scripted targets asked concurrently, recorded and validated, under AddressSanitizer. Order of concurrent targets is whatever the threads produce.")

prop("C22", "auth_simple: nobody gets in, or at a database or target, unauthorised",
     "With a user register, an init reaches what follows the filter only with a user and password of the register; all others are refused with diagnostic 1014, and the session is closed. "
     "A search or scan of a user goes on only when each database is among those the register's last line for the user lists (any case, * for all); else it is refused with 236 and the first database that is not, and the session is closed. "
     "With a target register, also when there are both, an init goes on only with virtual hosts listed for its user; others are refused with 236 or, as configured, removed, and with none left it is refused. Register lines may have any length; sessions do not affect each other.",
     ["histories", "inputs"], "every register, and every interleaving of the requests of several sessions",
     "The test needs YAZ++ and tries one login.",
     ["src/filter_auth_simple.cpp"], [("AuthSimple::process_init, process_search, process_scan, check_targets, config_userRegister", "src/filter_auth_simple.cpp")],
     technique=TV,
     note="Model of two sessions under every mode checked exhaustively; thousands of generated registers and dialogues (with requests of other sessions while a back end is at work) recorded and validated, under AddressSanitizer. Requests of a session that never sent an init pass the filter, as its source says.")

prop("C23", "load_balance: an init goes to the least loaded target that takes it",
     "An init with several virtual hosts is sent, with one of them, to the target with the smallest load: its open sessions plus requests under way plus sessions it lost since it was last without any; when it closes the session, to the next best, until one takes it or, with none left, the client gets diagnostic 2 and the session is closed. "
     "A session is counted at the target it was opened at from then until it ends, once, however it ends and whether or not requests were answered; requests other than init pass unchanged, and a session closed by either side is closed for both.",
     ["histories", "schedules"], "every history of sessions over any targets, with failures",
     "The test needs YAZ++ and checks that the filter passes packages.",
     ["src/filter_load_balance.cpp"], [("LoadBalance::Impl::process, add_session, remove_session, cost", "src/filter_load_balance.cpp")],
     technique=TV,
     note="Model with three sessions and two targets checked exhaustively (no load is left behind); thousands of generated histories, including requests under way while others init, recorded and validated.")

prop("C24", "limit: sessions over their limit wait, presents are capped",
     "After a request of a session was answered the filter waits for (searches in the last 60 seconds)/limit + (bytes in the last 60 seconds)/limit seconds, rounded down each, and for at least 60/limit seconds (1 when the limit is 60 or more) if there were more requests than the limit in the last 60 seconds; limits not given are not applied, and other sessions do not count. "
     "A present asking for more than the retrieve limit is passed on asking for exactly that many; everything else passes unchanged.",
     ["histories", "inputs"], "every history of requests and pauses, limits and sessions",
     "The test needs YAZ++ and sends one request.",
     ["src/filter_limit.cpp"], [("Limit::Impl::process", "src/filter_limit.cpp")],
     technique=TV,
     note="Model of two sessions checked exhaustively for all small limits; generated histories with a virtual clock recorded and validated. The 60 second window itself is computed by YAZ++ (here: a stand-in).")

prop("C25", "present_chunk: a present in parts is the present",
     "A present of a positive number of records is sent as presents of at most the configured number each, for consecutive ranges, and the client gets the records of all of them in order, at most as many as it asked for, with its reference id. "
     "It stops when the back end returns no records; when a part is answered with anything but records, or the session is closed, that is the client's answer. Everything else passes unchanged.",
     ["histories", "inputs"], "every range, chunk size and behaviour of the back end",
     "There is no test of this filter.",
     ["src/filter_present_chunk.cpp"], [("PresentChunk::Impl::chunk_it", "src/filter_present_chunk.cpp")],
     technique=TV,
     note="Model with all ranges up to a bound and back ends returning less, more or nothing checked exhaustively; generated dialogues recorded and validated, under AddressSanitizer.")

prop("C26", "sort: the first records of a result set come sorted, each once",
     "In a session with an init, the first records (up to prefetch, at least as many as were returned) of a result set in a record syntax are fetched when records from the first on are returned for a search or present, sorted by the text the XPath expression finds in them (bytewise; records without it first; equal ones stay in order; descending is the reverse), and that answer and later presents within them return them by position in this order; other presents pass. "
     "Unknown result sets get 30, refused replacements 21, a new search replaces what was sorted; reference ids are kept and a closing back end closes the session.",
     ["histories", "inputs"], "every record contents, range, prefetch limit and back end behaviour",
     "The test needs YAZ++ and checks that the filter can be created.",
     ["src/filter_sort.cpp"], [("Frontend::handle_records, handle_search, handle_present; RecordList::sort, get", "src/filter_sort.cpp")],
     technique=TV,
     note="Model of a client with two result sets checked exhaustively; generated dialogues with XML records recorded and validated, under AddressSanitizer. Which element set the records were first fetched with is not distinguished, as in the code.")

prop("C29", "thread pool: every message is handled once and its result delivered once",
     "A message put into the pool is handled once, by one of the pool's threads, and what its handling returned is given its result once, on the observer's thread, without fail; messages begin in the order they were put. "
     "There are at least the minimum and never more than the maximum of threads, and no message waits while fewer than the maximum are busy, so that messages depending on others cannot block the pool as long as one thread is left. A put waits when there are 64 messages per thread. "
     "Cleaning up removes and destroys exactly the messages of the group that no thread has taken yet; they are neither handled nor given a result. Destroying the pool waits for what is being handled, and nothing happens afterwards.",
     ["schedules", "histories"], "every schedule of the threads, number of threads and sequence of puts, clean-ups and deliveries",
     "A test puts a few messages and needs YAZ++.",
     ["src/thread_pool_observer.cpp", "src/pipe.cpp"], [("ThreadPoolSocketObserver::put, run, socketNotify, cleanup", "src/thread_pool_observer.cpp")],
     technique=TV,
     note="The algorithm at the grain of its locks is model checked with fairness (all schedules up to six messages on three threads); the real pool runs under a seeded scheduler deciding at every lock, condition and join, its histories are validated, and runs where all threads wait are violations.")

prop("C27", "http_file: exactly the files below the document roots are served",
     "A GET whose path (percent-decoded) begins with the request prefix of an area is answered, by the first such area, with 200 and exactly the bytes of the file below its document root that the rest of the path names, with the type its extension is mapped to, application/octet-stream otherwise; raw areas send the HTTP response recorded in the file. "
     "There is 404 for what is no plain file there and 405 for other methods, or, where configured, the request passes. Nothing outside the document root is ever served, whatever the path (dots, slashes, percent escapes); HTTP requests of no area, or with two dots in a row, and other packages pass unchanged.",
     ["inputs", "histories"], "every request path, and every arrangement of files, prefixes and types",
     "There is no test of this filter.",
     ["src/filter_http_file.cpp"], [("HttpFile::Rep::fetch_uri, fetch_file; HttpFile::process", "src/filter_http_file.cpp")],
     technique=TV,
     note="Model of all short paths over a small directory tree checked exhaustively (nothing outside is served); generated paths, configurations and trees recorded and validated, under AddressSanitizer.")

prop("C28", "sru_z3950: an SRU request becomes the Z39.50 dialogue it stands for",
     "A searchRetrieve over HTTP (GET, POST or SOAP) becomes an init (with the user and password and target of the request), a search in the path's database with its query, and presents until the records asked for, within what the search found, are there; the answer lists exactly the records the back end returned, in order, with their positions, the hit count and the next position. "
     "Explain is answered from the configuration; what is missing, unsupported or refused is answered by the SRU diagnostic standing for it; a back end failing or returning less, more or no records ends in a proper answer; other packages pass.",
     ["histories", "inputs"], "every request, record range and behaviour of the back end",
     "The test needs YAZ++ and checks that the filter can be created.",
     ["src/filter_sru_to_z3950.cpp", "src/sru_util.cpp"], [("SRUtoZ3950::Impl::sru, z3950_init_request, z3950_search_request, z3950_present_request", "src/filter_sru_to_z3950.cpp")],
     technique=TV,
     note="Model of the dialogue with back ends returning any number of records, failing or closing checked exhaustively; generated requests recorded and validated, under AddressSanitizer.")

prop("C30", "session_shared: clients share back end sessions without noticing",
     "Clients whose inits carry the same credentials and other information (credentials do not count where configured so) share back end sessions and the result sets in them, and no others do; there are never more than the configured maximum of sessions for such clients, nor of result sets in a session. "
     "A session is used by one request at a time. The answer to a search or present is that of the client's own query in its own databases, in its own result set names, with its reference id; records are those the back end gave for that position, syntax and element set; queries may refer to the client's other result sets. "
     "A back end session that is lost is closed and not used again, the reason of a failure is passed on, and a search failing for a temporary reason is tried once more in another session where configured. "
     "A set is only replaced when it was not used for its time to live or nothing else is left; idle sessions are closed within twice the time to live and all of them at shutdown; every request is answered.",
     ["schedules", "histories"], "every interleaving of clients at work at the same time, and every failure of back ends",
     "The test needs YAZ++ and checks that the filter can be created.",
     ["src/filter_session_shared.cpp"], [("SessionShared::Frontend::get_set, override_set, search, present, scan", "src/filter_session_shared.cpp"),
      ("SessionShared::BackendClass::create_backend, get_backend, release_backend, remove_backend, expire_instances", "src/filter_session_shared.cpp")],
     technique=TV,
     note="The algorithm at the grain of its locks is model checked with fairness (two clients with three requests each, failures and expiry; three clients in the thorough run); the real filter runs with up to four clients under a seeded scheduler deciding at every lock, condition and back end call with a virtual clock, and its histories are validated. Data races on unlocked data are outside what the scheduler shows.")

prop("C31", "Answers metaproxy makes itself are proper answers to the request",
     "A response, close or diagnostic created for a Z39.50 request of any type carries exactly that request's reference id (a copy of its bytes), or none if it has none, encodes as a valid PDU, and says success without and failure with the given diagnostic and text. "
     "An HTTP response has the code and exactly the content given, version 1.0 for HTTP/1.0 and 1.1 otherwise, and the session is closed unless the client keeps the connection: HTTP/1.0 with Connection: Keep-Alive, otherwise anything but Connection: close, in any case. "
     "Piggyback: a search answer has all records of a result set up to the small set bound, none from the large set bound on, and otherwise the medium number at most, in the element set name given for that case; diagnostics are taken out of init responses and diagnostic records unchanged.",
     ["inputs"], "every type of request and response, reference id, diagnostic, HTTP version and header, bounds and size",
     "Tests create a few responses; no test compares all types, headers or bounds.",
     ["src/util.cpp", "include/metaproxy/util.hpp"], [("odr::create_*, transfer_referenceId, get_referenceId, piggyback, http_response", "src/util.cpp")],
     technique=FN,
     note="All pairs of request and response types, and tens of thousands of generated calls; responses are encoded and decoded again by YAZ before they are compared.")

prop("C32", "Names, addresses, hosts and patterns mean the same everywhere",
     "Database names are equal regardless of ASCII case, lists of them when equal one by one. host/database+database is taken apart at the first slash after the scheme and at each plus. Virtual hosts in a request are those of category 1, 2, ... up to the first missing; removing them leaves all else as it was, and setting them replaces or adds just those. "
     "An address matches a list of patterns separated by blanks if one of them matches as a whole (* any text, ? any character), an IPv4 address in IPv6 form also as IPv4, and an empty list matches everything. "
     "HTTP headers are found in any case; encoding text for a URI and decoding it gives the text, and escapes decode to their bytes; a prefix query becomes the query it says and is written back the same, and a wrong one is refused. "
     "A plain file gives the words of its lines, of any length, but for empty ones, comments and those beginning with a blank.",
     ["inputs"], "every name, address, pattern, header list, text and file",
     "Tests check a few examples of some of these functions.",
     ["src/util.cpp", "src/plainfile.cpp"], [("match, database_name_normalize, match_ip, split_zurl, *_vhost_otherinfo, uri_encode, uri_decode, http_header_value, pqf", "src/util.cpp"), ("PlainFile::getline", "src/plainfile.cpp")],
     technique=FN,
     note="Tens of thousands of generated calls, under AddressSanitizer. Decoding stops at an escaped NUL, as texts do here.")

prop("C33", "backend_test: a back end that answers every request as Z39.50 says",
     "After an init (which accepts search, present and, per session, named result sets, and the sizes proposed) a search finds 42 records, and answers and presents carry exactly the records of the range asked for (searches by the bounds for small, medium and large sets and the element set of that case), in order, with the next position; USMARC in F, B or no element set, XML in FFn of n kilobytes. "
     "Ranges not within the result set get 13, other syntaxes 239, other element sets 25, complex compositions 26, names of result sets in sessions without them 22; the record data sent is never what was not asked for. "
     "Requests before an init, and others, get a close for a protocol error, a close gets a close, the session then ends; reference ids are kept; other packages pass. Whatever numbers a request has, it is answered, and no session matters to another.",
     ["inputs", "histories"], "every range, bound, syntax and element set, and every order of requests in concurrent sessions",
     "Tests make an init, a search and a present.",
     ["src/filter_backend_test.cpp", "src/util.cpp"], [("BackendTest::process, Rep::fetch", "src/filter_backend_test.cpp")],
     technique=TV,
     note="Two clients' requests and all ranges at the bounds checked exhaustively on the model; generated dialogues of three clients recorded and validated, under AddressSanitizer. Known findings of the unchanged tree (numbers out of range and a shared option) are shown by fixed scripts.")

prop("C34", "query_rewrite: what is searched for is what the stylesheet makes of the query",
     "A search reaches the next filter once, unchanged except for its query, which is what the stylesheet makes of the query (operators, result sets, attributes with their sets, terms of any type and text), its general terms then converted from one character set to the other. "
     "If no query comes of it (the stylesheet stops, or yields nothing, or something that is no query), or nothing of a term can be converted, there is a failed search response with a diagnostic and the reference id of the request, and nothing is sent; unknown character sets convert nothing. "
     "Answers, and all other requests and queries without stylesheet, pass unchanged. The request is in order afterwards whatever happened, for filters that look at it again.",
     ["inputs", "histories"], "every query tree, attribute, term and stylesheet outcome",
     "The test needs YAZ++ and has two queries.",
     ["src/filter_query_rewrite.cpp"], [("QueryRewrite::Rep::process, configure", "src/filter_query_rewrite.cpp")],
     technique=TV,
     note="All small queries with all chains of two rules model checked; generated queries and stylesheets for ten kinds of rewriting and nine of failing recorded and validated, under AddressSanitizer. Wrong UTF-8, empty terms and partly convertible terms are left to the library, which cuts them short.")

prop("C35", "record_transform: records come in the syntax and schema asked for",
     "A search or present reaches the next filter once with the syntax and element set that records of the kind asked for are made from: of the configured kinds that match the syntax and the element set or schema identifier, one that has that name (the last) before one without name or of any name asked for (the first). "
     "If there is none, there is a failed response with diagnostic 239 for the syntax or 24 for the element set, with the reference id of the request, and nothing is sent. A search for which the element set is not settled before the number of hits is known asks for no records. "
     "Each record of the answer is then converted by the steps of that kind, in their order, and says its syntax; a record that cannot be converted becomes a surrogate diagnostic of its database, the others unaffected; diagnostics and everything else in answers, other requests, and all if nothing is configured, pass unchanged.",
     ["inputs", "histories"], "every configuration, request and record list",
     "The test needs YAZ++ and only configures the filter.",
     ["src/filter_record_transform.cpp", "src/util.cpp"], [("RecordTransform::Impl::process, convert_npr", "src/filter_record_transform.cpp")],
     technique=TV,
     note="All configurations of up to two kinds with all requests and record answers model checked; generated configurations with up to four kinds and chains of stylesheets recorded with concurrent clients and validated, under AddressSanitizer. Conversion is shown for XSLT and for records that are not XML; MARC, OPAC and usemarcon conversion is the libraries'.")

prop("C36", "http_rewrite: rules rewrite the parts of messages they are for, and no other",
     "Of each HTTP request and response, a rule is tried on exactly the parts its within selects: the URL of a request, header fields by name, the text of elements and attributes of HTML bodies by tag and name (the first within that fits; text by the innermost open element with one), or quoted literals of other bodies, in content of the media types asked for. "
     "In such a part the leftmost match of the rule's patterns (of those the first) is replaced by its recipe, in which ${name} is the last text a group of that name matched in this exchange, and so on from the end of the match; anchored patterns match only at the start; a link that X-Metaproxy-SkipLink of this page names stays, and that header is not passed on. "
     "Everything else of the message, messages of other kinds and messages when nothing is configured pass unchanged; what one exchange captured is not seen by another; rewriting ends whatever the message is.",
     ["inputs", "histories"], "every configuration, request and response",
     "The test needs YAZ++ and samples three configurations.",
     ["src/filter_http_rewrite.cpp", "src/html_parser.cpp"], [("HttpRewrite::process, Phase, Rule, Content, Within", "src/filter_http_rewrite.cpp")],
     technique=TV,
     note="Regular expressions are specified as trees (backtracking order of Perl), so matches are decided in the specification. All documents and rules of a small alphabet model checked; generated configurations and concurrent exchanges recorded and validated, under AddressSanitizer. Not covered: parentheses in character classes or lookahead in patterns (the filter counts them as groups), malformed recipes, literals that end in a backslash.")

prop("C38", "z3950_client: a connection per session, an answer per request, and in time",
     "Each session whose init request names one target (or the forced or default one) gets one connection to that target; without a target, with several, or beyond max-sockets the init is refused with its diagnostic, the last only after the time allowed for it while no idle session could give way. "
     "Requests of the session are sent on that connection, one at a time, in full (the target's name, client address and character set negotiation handled as configured), each request is answered once, by what the target answered to it, or by a close when the target refuses, fails, closes, sends rubbish or does not answer within connect, init or ordinary timeout, and with its reference id; no request waits longer than that. "
     "Diagnostics say which target they are from. When the session ends, whoever ended it, its connection is closed (told so first if force-close), and no other's; at the end no connection is left open. A session that does not begin with init is closed.",
     ["inputs", "histories", "schedules"], "every configuration, request history, target behaviour and interleaving of requests",
     "The test needs YAZ++, runs no target and only configures the filter.",
     ["src/filter_z3950_client.cpp"], [("Z3950Client::Rep::get_assoc, send_and_receive, release_assoc, ZAssoc", "src/filter_z3950_client.cpp")],
     technique=TV,
     note="The specification has time in milliseconds. Histories of two sessions with pipelined requests are model checked; generated target behaviours (refusals, silence, failures, delays, rubbish) with two clients that pipeline requests, under a seeded scheduler and clock, are recorded and validated, under AddressSanitizer. Sockets, BER and TLS are the stand-in's.")

prop("C37", "log: every request and answer is logged once, completely, on one line, as it is",
     "A log filter changes nothing and passes everything on. Before a request is passed on, and after its answer comes back and before it is given, it writes, for the categories configured and nothing else, one line each, to its own file (the last named; the YAZ log if none is or it cannot be opened; several filters may share one): the message of this filter, the user the session said it is by its last init with authentication, the address and number of the session, the time taken, and the text of the package as documented (names, counts, diagnostics, queries; a dash for what is not given), or request and answer on one line. "
     "Entries of concurrent requests are not mixed or lost; no text in a package can make an entry look like two; no package or combination of request and answer, however odd, stops it.",
     ["inputs", "histories", "schedules"], "every configuration, request, answer and interleaving of sessions",
     "The test needs YAZ++ and looks at no log entry.",
     ["src/filter_log.cpp", "src/gduutil.cpp"], [("Log::Impl::process, log_1line_Z_APDU, LFile::log", "src/filter_log.cpp"), ("operator<< of Z_GDU and Z_APDU", "src/gduutil.cpp")],
     technique=TV,
     note="The texts are written down in the specification. All histories of two sessions and two filters model checked; generated configurations, requests and answers of all kinds, with delays, from two clients under a seeded scheduler and clock, recorded together with what appears in the log files meanwhile and validated, under AddressSanitizer. Of packages logged in full only that they are is checked; the formatting of times is strftime's.")

prop("C39", "cql_rpn: a query in one language becomes the same query in the other",
     "A search with a CQL query reaches the next filter once, unchanged except for its query, which is the RPN query that the configured properties make of it: same operators, operands in order, terms as they are with the attributes of their index, relation and modifier and those of every term. "
     "In reverse an RPN query becomes the CQL text whose operators (in brackets where they nest), indexes (the first fitting its attributes), relations, truncation and quoted terms say the same. "
     "A query that has no such counterpart (wrong syntax, unknown context set, index or relation, result sets in reverse) is answered with a failed search response with the diagnostic for what is wrong with this very query, naming it, and the reference id of the request, and nothing is sent. "
     "Other requests and queries, and all answers, pass unchanged; a configuration without a readable file is refused; no query, however concurrent, has the result or diagnostic of another, and no memory is kept after a search.",
     ["inputs", "histories", "schedules"], "every properties file, query and interleaving of concurrent searches",
     "The test needs YAZ++ and only configures the filter.",
     ["src/filter_cql_rpn.cpp"], [("CQLtoRPN::Impl::process, RPNtoCQL", "src/filter_cql_rpn.cpp")],
     technique=TV,
     note="All query trees of depth two of a small vocabulary with all answers are model checked; generated properties files and queries of up to three clients, concurrent under a seeded scheduler in which conversions interleave, recorded and validated, under AddressSanitizer; the number of live buffers is part of what is recorded. The conversions themselves are YAZ's, and specified here only for the forms generated.")

prop("C40", "bounce, sd_remove and zeerex_explain: each does its one thing and nothing else",
     "bounce passes nothing on, answers each HTTP request 400, with the request as it was if echo is asked for, each Z39.50 request with a close for this request (reference id, what it was), and ends the session whatever came. "
     "sd_remove passes requests unchanged; in search and present answers each surrogate diagnostic becomes a text record of the same database saying its code, meaning and details; other records and answers are unchanged. "
     "zeerex_explain answers exactly the SRU explain requests (GET, POST, SOAP) for its databases with the explain record configured for that database (host, port and database as asked for, packing as asked), and diagnostics for what is wrong in them; SOAP packages that are no SRU get a fault, other HTTP requests 400; everything else passes unchanged, and no request, however odd, stops it.",
     ["inputs", "histories"], "every request, answer and order of requests in concurrent sessions",
     "The tests need YAZ++ and make one request each.",
     ["src/filter_bounce.cpp", "src/filter_sd_remove.cpp", "src/filter_zeerex_explain.cpp", "src/sru_util.cpp"],
     [("Bounce::process", "src/filter_bounce.cpp"), ("SDRemove::process", "src/filter_sd_remove.cpp"), ("ZeerexExplain::process", "src/filter_zeerex_explain.cpp")],
     technique=TV,
     note="All histories of two sessions with small packages model checked for each filter; thousands of generated requests of all kinds from concurrent clients recorded and validated, under AddressSanitizer.")


prop("C41", "frontend_net: requests processed and answered once, limits kept, sessions ended",
     "Each accepted connection gets a session of its own, on the route of its port, and packages tell the filters the peer and local address (X-Forwarded-For unless given). Every request received is processed once, by at most the configured number of threads; each response goes to the connection its request came on, none twice, and none after its end; unhandled requests get a close or HTTP 500. "
     "connect-total, connect-max, http-req-max and timeout, by the first rule for the peer, refuse and end exactly what they should; the report path is answered by the filter itself, with true counts. "
     "Whatever ends a connection (client, filters, idling, limits), the filters learn it exactly once, and it is forgotten only then and when nothing of it is being processed. After SIGUSR1 no port is listened on and the program ends when all clients have gone; after SIGTERM at once.",
     ["inputs", "schedules", "histories", "faults"], "every configuration, history of connections, requests, disconnects, pauses and signals, and schedule of the threads",
     "The tests need YAZ++ and real sockets, and have one client; races between the threads and disconnects do not occur in them.",
     ["src/filter_frontend_net.cpp", "src/thread_pool_observer.cpp", "src/filter_frontend_net.hpp"],
     [("FrontendNet::process", "src/filter_frontend_net.cpp"), ("ZAssocChild::recv_GDU", "src/filter_frontend_net.cpp"), ("ThreadPoolPackage::result", "src/filter_frontend_net.cpp")],
     technique=TV,
     note="All histories of two clients at one port under each limit model checked; thousands of generated histories on in-memory connections with virtual time and a seeded scheduler recorded and validated, under AddressSanitizer.")

prop("C42", "http_client and http_rewrite1: requests to their URLs, answers as told",
     "http_client asks, for each HTTP request, exactly one URL: the one in the request, or the path at the default host (404 if there is neither), with the method, content and headers of the request, through the proxy configured or named by the request, with the peer added to X-Forwarded-For and bound to the local address if so configured. The answer goes to the request it is for, without transfer encoding; 502 if there is none. "
     "http_rewrite1 replaces in responses of exactly the configured content type what the patterns match (first, or all), in their order, and nothing else; a bad pattern is refused in the configuration. Everything else passes both unchanged, and no request or response stops them or is freed while in use.",
     ["inputs", "schedules", "histories", "faults"], "every configuration, request, answer and order of requests in concurrent sessions",
     "There are no tests of http_client and http_rewrite1.",
     ["src/filter_http_client.cpp", "src/filter_http_rewrite1.cpp"],
     [("HTTPClient::Rep::proxy", "src/filter_http_client.cpp"), ("HttpRewrite1::process", "src/filter_http_rewrite1.cpp")],
     technique=TV,
     note="All histories of two clients with small answers, and all substitutions of small patterns in short texts, model checked; thousands of generated requests recorded, with YAZ's HTTP client replaced by the script, and validated, under AddressSanitizer.")

prop("C43", "cgi: mapped requests are answered by their program, or refused",
     "An HTTP request whose path begins with that of a map (the first such one) is answered by running the program of that map, once, in its directory and with the configured variables and those that describe this request alone (method, URI, script name, path info, query, the headers known, content type and length), the content of the request as input, of any length. What the program writes is the answer, whole, its headers and content as they are. "
     "Where the system does not give pipes or processes, or the program gives nothing that can be an answer, the request is refused; it never passes and is never answered by another program or for another request. Other requests pass unchanged and start nothing. No process, descriptor or memory is left over.",
     ["inputs", "schedules", "histories", "faults"], "every configuration, request and order of requests in concurrent sessions, whatever the programs do and whether or not the system can run them",
     "There are no tests of cgi, and none of what happens when a program cannot be run.",
     ["src/filter_cgi.cpp"],
     [("CGI::process", "src/filter_cgi.cpp")],
     technique=TV,
     note="All histories of two clients with answering, broken and missing programs, and a refusing system, model checked; thousands of generated requests to real small programs recorded and validated, under AddressSanitizer, with pipe and fork failing now and then.")
