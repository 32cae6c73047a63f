#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay reviewable)."""
import json, os
D='src/shared/dns/'; N='src/nameserver/'; R='src/resolver/'; B='src/resolver/back_end/'; S='src/shared/net/'
UT='The 11 existing tests all live in the bit buffer module and only exercise its reads/writes on a few fixed values.'
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech],'observe_at':observe,'hook_needed':None}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

p('C01','Decoding arbitrary bytes is total and bounded',
  'Decoding any byte string whatsoever as a DNS message, header, question or record returns either a value or an error: it never panics, never aborts, never loops (whatever the compression pointers say) and never needs more than a bounded, small amount of memory. Whatever message the decoder accepts can be encoded again without a panic, and the section counts in its header equal the number of items actually held in each section.',
  ['inputs'],'all byte strings up to 64 KiB: uniformly random ones, structurally valid messages, and valid messages damaged by byte edits, truncation, splicing, wrong lengths and hostile compression pointers',
  UT+' No test decodes a message at all, and no finite sample settles a claim about every byte string an attacker can send.',
  [D+'name.rs',D+'records.rs',D+'message.rs',D+'utils.rs',D+'header.rs',D+'questions.rs','src/shared/buffer/buffer.rs'],
  [('bounds-checked reads returning None',"BitsBuf::read_*"),('jump limit','Name::from_bytes MAX_REDIR'),('count normalisation','Message::decode_from_bytes')],
  ['Message::decode_from_bytes','Header::decode_from_bytes','Question::decode_from_bytes','Record::decode_from_bytes','Message::encode_to_bytes'])

p('C02','Decoding is faithful to the wire format',
  'A well-formed message (RFC 1035 sections 3 and 4: header bits, names with or without compression, whose pointers may lead to any place of the message, class IN and the supported record types A, NS, CNAME, SOA, WKS, PTR, HINFO, MX, TXT) decodes to exactly the header, questions and records its bytes describe; questions and records of unknown types are skipped whole, wherever they stand, without disturbing the others. A malformed message is rejected with an error (bytes missing anywhere, a data length that disagrees with the data, bad label bits, compression loops or pointers outside the message, over-long labels or names, invalid characters, non UTF-8 text, unknown classes), while unsupported but well-formed features (opcodes, classes, known unsupported types) are reported as unsupported rather than as malformed.',
  ['inputs'],'all messages: generated messages of every supported type with arbitrary field values, section sizes, unknown-type records and compression layouts, plus single-fault corruptions of them',
  UT+' Agreement with the wire format is a claim about every message; nothing today decodes even one.',
  [D+'name.rs',D+'records.rs',D+'message.rs',D+'utils.rs',D+'header.rs',D+'questions.rs',D+'types.rs',D+'class.rs'],
  [('record data decoders check data_len',D+'records.rs decode_*_data'),('pointer following and position restore','Name::from_bytes'),('unknown type consumption','decode_record_type'),('error categories','ParsingErr')],
  ['Message::decode_from_bytes'])

p('C03','Encoding is faithful and round-trips',
  'Encoding a valid message produces bytes that an independent RFC 1035 decoder reads back as exactly the same header bits, questions and records (every field, every record type, every section, in order, with correct record data lengths and no trailing bytes), and decoding those bytes with the system itself gives the same message again. Contents that the format cannot carry, such as a character string longer than 255 bytes, are reported as an error instead of being encoded wrongly.',
  ['inputs'],'all valid messages: every supported record type, names from the root up to 255 octets with labels up to 63, extreme numeric values, empty and 255-byte strings, any port set, any section sizes',
  UT+' No test encodes a record; round-trip is a claim over the whole space of messages.',
  [D+'records.rs',D+'message.rs',D+'name.rs',D+'header.rs',D+'questions.rs',D+'utils.rs'],
  [('record data encoders write data_len',D+'records.rs encode_*_data'),('label encoding','Name::to_bytes'),('header bit layout','Header::encode_to_buf')],
  ['Message::encode_to_bytes'])

p('C04','Size-limited encoding truncates correctly',
  'The encoding used for UDP never exceeds 512 bytes: it is byte for byte the full encoding when that fits, and otherwise holds the longest possible prefix of whole questions and records, in section order, with section counts that match what is present. The TC bit is set whenever something was left out, every other header field is unchanged, and the result always decodes.',
  ['inputs'],'all messages, with sizes concentrated around the 512-byte limit (exactly 511, 512, 513) and with the limit falling in each of the four sections',
  UT+' The limit can fall anywhere in any section of any message.',
  [D+'message.rs','src/shared/buffer/buffer.rs',S+'udp_server.rs'],
  [('roll back to the last whole record','Message::encode_to_bytes_trunc'),('buffer truncation','BitsBuf::truncate')],
  ['Message::encode_to_bytes_trunc'])

p('C05','Domain names: only valid ones exist, and text and wire forms agree',
  'A text is accepted as a domain name exactly when it is the root "." or a dot-terminated sequence of labels of 1 to 63 ASCII letters, digits and hyphens, each starting and ending with a letter or digit, whose wire form is at most 255 octets; otherwise it is refused with an error. The same rule decides which names in the wire form are accepted, converting a name from text to the wire and back gives the same name, and the wire form is the length-prefixed labels followed by a single zero octet.',
  ['inputs'],'all texts (near-valid and arbitrary Unicode) and all label sequences, including lengths at and around 63 and 255 and labels with embedded dots, NULs or non-ASCII bytes',
  UT+' Name validity is a claim over all strings; boundaries such as 63/64 and 255/256 octets are never sampled.',
  [D+'name.rs'],[('validation','validate_name / validate_label'),('wire parsing','Name::from_bytes'),('wire writing','Name::to_bytes')],
  ['Name::from_string','Name::from_bytes','Name::to_bytes'])

p('C06','Zone containment is decided label by label',
  'A name is considered inside a zone exactly when the sequence of labels of the zone is a suffix of the sequence of labels of the name, the case of letters being ignored everywhere as it is when names are compared for equality (so "badexample.com." is not inside "example.com.", and every name is inside the root), it is the top node of a zone exactly when they are equal, and it belongs only to the authoritative zone exactly when it is inside that zone and inside none of the delegated sub zones.',
  ['inputs'],'all pairs and families of names: unrelated, equal, ancestor/descendant, the root, and names that are string suffixes without being label suffixes',
  UT+' Nothing tests containment, on which zone loading, delegation and bailiwick decisions all rest.',
  [D+'name.rs',N+'zones/errors.rs',N+'handler.rs'],[('label-wise comparison','Name::is_in_zone, is_in_zone_root, is_only_in_auth_zone')],
  ['Name::is_in_zone','Name::is_in_zone_root','Name::is_only_in_auth_zone'])

p('C07','The bit buffer behaves as an array of bits with two cursors',
  'For every sequence of operations the bit buffer behaves like an array of bits with independent read and write positions: writes overwrite or extend at the write position, reads return exactly the bits previously stored (most significant first, big-endian integers) and advance, a read beyond the end yields nothing and moves nothing, and truncation drops exactly the bits beyond the given length and clamps the positions.',
  ['histories','inputs'],'all sequences of writes of 1-8 bits, bytes, byte arrays, 16 and 32 bit integers, reads of 0-8 bits and of the same units, position changes and truncations, at every alignment',
  'The existing tests run a few fixed sequences, mostly aligned; alignment, overwrite in the middle, partial final bytes and truncation interact over arbitrary histories.',
  ['src/shared/buffer/buffer.rs'],[('bit offset arithmetic','read_bits/write_bits and derived methods'),('truncate','BitsBuf::truncate')],
  ['BitsBuf public methods'])

p('C08','A valid zone file loads to exactly the records it states',
  'Loading a valid zone loads exactly the records written in its master files and nothing else, whatever the layout: blanks and tabs, comments, parentheses spanning lines, quoted strings, escapes (of single characters or decimal), keywords in either case, $ORIGIN, nested $INCLUDE with or without an origin, "@" for any name, blank owners (meaning the current origin), relative and absolute names (also of digits only), TTL and class in either order or absent. A record without a TTL takes the TTL of the previous record of the same file (initially the one in force where the file was included, or the configured starting TTL), a $ORIGIN inside an included file does not leak into the including one, and sub zone files yield exactly their NS and A records.',
  ['inputs','programs'],'all record sets of all supported types rendered as zone files under random layout choices, split over included files and sub zone files',
  UT+' No zone file is parsed by any test; layout freedom is a grammar, not a list of samples.',
  [N+'zones/tokens.rs',N+'zones/parser_auth.rs',N+'zones/parser_sub.rs',N+'zones/utils.rs',N+'zones/parser.rs'],
  [('tokenizer with peeking and multiline state',N+'zones/tokens.rs'),('parsing state (origin, TTL, minimum)',N+'zones/parser_auth.rs'),('TTL/class disambiguation','parse_ttl_class')],
  ['parse_zone_files','Zone::get','Zone::get_all_of_type'],
  [('current_orig/current_ttl','defaults for the following records','AuthParsingState'),('multiline','inside parentheses','Tokenizer')])

p('C09','Inconsistent or unsupported zones are never loaded',
  'Loading fails with an error, without loading anything, whenever the zone data break a documented rule: the first entry of the zone is not an IN SOA owned by the zone name, another SOA appears, NS records are missing from or not owned by the top node of the zone or of a sub zone, an owner name or origin is outside the zone or inside a sub zone, a TTL is below the SOA minimum (or the configured minimum of a sub zone), a sub zone holds anything but NS and A records, its nameserver lies inside a sub zone without a glue address there, or an address that belongs to no listed nameserver. It also fails for classes other than IN, unknown or unsupported types, malformed data (addresses, numbers, names, escapes, strings over 255 bytes or not ASCII, TXT without strings), unbalanced parentheses or quotes, unknown directives, missing files and files that include themselves.',
  ['inputs'],'all valid zones with one rule broken at a random place (including inside included files and sub zones), in random layout',
  UT+' Each rule can be broken at any record, in any file and in any combination with layout.',
  [N+'zones/parser.rs',N+'zones/parser_auth.rs',N+'zones/parser_sub.rs',N+'zones/errors.rs',N+'zones/utils.rs',N+'zones/tokens.rs',D+'utils.rs'],
  [('zone validation','validate_auth_zone / validate_subzone'),('ensure_* checks',N+'zones/errors.rs')],
  ['parse_zone_files'])

p('C10','The zone loader survives any text',
  'Loading any file contents as a zone or sub zone (arbitrary text, any Unicode white space, binary data, any nesting of includes) terminates with a loaded zone or an error: it never panics, hangs, exhausts the stack or grows memory without bound. Any zone that loads can be served: every record in it can be encoded in a reply.',
  ['inputs'],'all file contents: random token soup over the zone grammar, mutated valid zone files, random Unicode and random bytes, include graphs with cycles',
  UT+' Totality is a claim over every text, including the ones nobody would write by hand.',
  [N+'zones/tokens.rs',N+'zones/parser_auth.rs',N+'zones/parser_sub.rs',N+'zones/utils.rs',D+'utils.rs'],
  [('token loop progress','Tokenizer::next'),('string validation before storing','parse_char_string')],
  ['parse_zone_files','Message::encode_to_bytes'])

p('C11','Nameserver answers follow the zone data',
  'For every loaded zone and every query the nameserver replies: REFUSED if the name is outside its zone; if the name is inside a sub zone, a non-authoritative referral carrying exactly the NS records of that sub zone plus the glue addresses that the sub zone files state for those nameservers; otherwise, authoritatively, exactly the records of that name and type, else the CNAME of that name, else NXDOMAIN with the SOA of the zone. Every reply echoes the question, and no record that is not in the zone data ever appears.',
  ['inputs','configurations'],'all zones (record sets, sub zones, glue layouts, the root zone) and all query names and types: present, absent, existing name with another type, empty non-terminals, below and beside sub zone cuts, look-alike suffixes',
  UT+' The handler is not tested at all; the answer depends on the zone and the query jointly.',
  [N+'handler.rs',N+'zones/parser.rs',D+'name.rs'],
  [('lookup order','handle_query/handle_auth_zone'),('referral assembly','handle_subzone')],
  ['DnsHandler::handle_request of NameserverHandler'])

p('C12','Every readable request gets exactly one well-formed reply',
  'Both servers answer every request whose header can be read with exactly one reply, and never crash on one: the reply has the request id, opcode and RD bit, QR set, TC and Z clear, RA set by the resolver and clear from the nameserver, consistent counts, and it can always be encoded. Requests with unsupported opcodes, classes or types get NOTIMP, malformed ones or ones that are not queries (QR set, not exactly one known-type question, answer or authority records present) get FORMERR, and those whose header cannot be read (too short, unknown opcode or response code) get no reply at all.',
  ['inputs'],'all byte strings received as a request by either server: valid queries, queries with every header bit pattern, extra records, unknown and unsupported types/classes/opcodes, truncated and corrupted messages, random bytes',
  UT+' The claim ranges over all request bytes.',
  [N+'handler.rs',R+'handler.rs',S+'udp_server.rs',S+'tcp_server.rs',D+'header.rs',D+'message.rs'],
  [('decode error mapping','handle_decode_err'),('request validation','validate_dns_request'),('response header','resp_header_from_req_header')],
  ['DnsHandler::handle_request of NameserverHandler and ResolverHandler'])

p('C13','The UDP and TCP servers answer every client, correctly framed',
  'Over real sockets, every client that sends a complete request over UDP or TCP gets the reply to its own request and to nothing else, whatever other clients do at the same time: UDP replies go to the sender and never exceed 512 bytes, TCP requests may arrive in any fragmentation and TCP replies are prefixed with their exact length, are never cut by the 512-byte limit, and the connection is closed after the reply. Clients that send garbage, connect and leave, or stall do not stop the others from being served, a TCP client that stalls is dropped after the read timeout, and one that does not read a reply too large for the buffers after the write timeout.',
  ['schedules','inputs','fault_sequences'],'all mixes of concurrent clients, request sizes and fragmentations, client misbehaviours and worker counts',
  UT+' No test opens a socket; fragmentation and concurrency are not reachable by single calls.',
  [S+'udp_server.rs',S+'tcp_server.rs',S+'setup.rs','src/shared/thread_pool.rs'],
  [('length prefix framing','TcpRequest::read / TcpResponse::reply'),('per-request socket/addr','UdpResponse'),('worker pool','ThreadPool'),('read/write timeouts','setup_connection')],
  ['start_servers over loopback sockets'])

p('C14','The thread pool runs each job exactly once and drains on shutdown',
  'Every job handed to a thread pool is run exactly once, on one of its worker threads, never on the submitting thread; a pool of n threads runs up to n jobs at the same time and never more, and jobs do not wait while a worker is free. Dropping the pool returns only after all the jobs handed to it have finished, and terminates its threads.',
  ['schedules','histories'],'all pool sizes, job counts, job durations, submission bursts and drop points',
  UT+' Thread scheduling is not sampled anywhere.',
  ['src/shared/thread_pool.rs'],[('shared receiver under a mutex released before running','Worker::new'),('Stop messages and join','Drop for ThreadPool')],
  ['ThreadPool::new','ThreadPool::execute','drop'])

p('C15','Resolution gives the true answer in a consistent DNS tree',
  'Against a consistent hierarchy of zones reached through delegations from the root (with glue or with nameservers named in other zones), a lookup returns exactly the record set of the requested name and type, preceded by the chain of CNAME records followed in order, or reports that the name does not exist exactly when the authoritative servers say so; it does so equally for a fresh resolver and for one whose cache was filled by any earlier lookups, at any later time. It does so whether or not the record sets fit a datagram: what a truncated reply holds is never taken as the whole. CNAME loops and CNAME chains longer than the configured limit end in an error. Every query it sends is a plain one: one question, no records, opcode and every flag zero.',
  ['inputs','histories','configurations'],'all finite DNS trees (depth, delegation styles, CNAME chains across zones, loops, missing names), all sequences of lookups on one resolver and all elapsed times between them',
  UT+' The resolver has no test; the outcome depends on the tree, the lookup history and the clock.',
  [B+'recursive.rs',B+'requests.rs',B+'utils.rs',B+'cache.rs'],
  [('iterative descent','Lookup::query_nameservers_iteratively'),('response interpretation','perform_request'),('cname restart','Lookup::handle_cname'),('nameserver cache','search_nss_in_cache_with_trace')],
  ['Resolver::new_lookup(..).perform()'],[('previous_zones / previous_cnames','loop detection','Lookup')])

p('C16','Resolution tolerates faulty nameservers within configured limits',
  'A lookup succeeds as long as, for each zone on the way, one of the nameservers it is allowed to try answers properly within the read timeout in one of the allowed attempts, whatever the others do (silence, late replies, garbage, wrong ids, error codes, empty replies, errors of the socket, truncated replies whose repetition over TCP fails); if none does, it ends with an error. Also when it looks up the addresses of nameservers, it never tries more nameservers per zone than the configured maximum, sends at most the configured number of attempts to each and keeps trying within those limits before it gives up, and tries nameservers with known addresses before those that need an additional lookup.',
  ['fault_sequences','configurations'],'all assignments of faults to attempts and nameservers, all values of the limits, all numbers of nameservers per zone with and without known addresses',
  UT+' Faults of upstream servers are not simulated anywhere.',
  [B+'recursive.rs',B+'requests.rs',B+'utils.rs'],
  [('retry loop','send_query_with_retries'),('nameserver limit','take(max_ns_queried)'),('ordering','sort_nameservers')],
  ['datagrams sent by the resolver and the lookup result'])

p('C17','Hostile nameservers cannot crash or trap the resolver',
  'Whatever bytes upstream nameservers send, a lookup terminates with a result or an error after a bounded number of upstream queries: it never panics, loops or exhausts the stack, whatever delegations (loops, unbounded chains of nameservers without addresses, upward or sideways referrals), CNAMEs or malformed messages it is fed, in datagrams or over a connection. A successful answer always consists of a chain of CNAME records starting at the requested name, followed by records of the requested type owned by the last name of the chain.',
  ['inputs','fault_sequences'],'all strategies of upstream servers: arbitrary bytes, mutated honest replies, and generated adversarial replies built from the query',
  UT+' Upstream behaviour is adversarial input; none is ever fed to the resolver by tests.',
  [B+'recursive.rs',B+'requests.rs',B+'utils.rs',D+'message.rs'],
  [('loop detection','detect_zones_loop / detect_cname_loops'),('progress towards the name','is_nameserver_authority_a_subzone'),('redirection limits','max_cname_redir, max_ns_queried')],
  ['Lookup::perform'])

p('C18','The resolver cache never serves stale data or inflated TTLs',
  'Data obtained from upstream are reused until, and never after, the smallest TTL among the records received together has elapsed: while they are fresh a repeated lookup of the same name and type causes no upstream query, afterwards it is asked upstream again and gives the new data. Any TTL returned to a client is at most the received TTL minus the whole time elapsed since the data were received, however many lookups happened in between, and it is not lower than that by more than one second; data with TTL zero are never reused. Nameservers learnt from a delegation are reused in the same way: while they and their addresses are fresh, a lookup of a name below starts there and not at the root.',
  ['histories','inputs'],'all sequences of lookups, elapsed times (fractions of seconds to weeks), TTL values (0 to 2^32-1, mixed inside a set), CNAME chains, and changes of the upstream data in between',
  UT+' Nothing tests the passing of time; tests cannot wait for TTLs to elapse.',
  [B+'recursive.rs',B+'cache.rs'],
  [('TTL correction','search_records_in_cache'),('minimum TTL per set','save_records_in_cache'),('expiry check','Cache::get_clone')],
  ['Lookup::perform and the datagrams sent'])

p('C19','The cache is a thread-safe map with expiry',
  'The cache behaves like a map whose entries vanish when their time to live has elapsed: reads, conditional updates and removals see exactly the last value set for a key if it has not expired and nothing otherwise, setting or removing returns the previous value only if it had not expired, and cleaning removes expired entries and nothing else. This also holds for operations issued concurrently from several threads, which behave as if executed one at a time.',
  ['histories','schedules'],'all sequences of set, get, update, remove and clean over a small key space with arbitrary TTLs and elapsed times, and concurrent histories',
  UT+' Expiry needs a controlled clock and concurrency needs histories; no test touches the cache.',
  [B+'cache.rs'],[('mutex-guarded map','Cache'),('expiry check','is_expired')],
  ['Cache::set/get_clone/on_found/remove/clean'])

p('C20','A nameserver cannot influence names outside its own zones',
  'Nothing that the nameservers of a zone send can change what the resolver answers, now or later from its cache, for names outside that zone: addresses, delegations or aliases offered for foreign names are not believed, nor are records of foreign names passed on to clients in any section of an answer. Datagrams that are not the reply to the outstanding query (different id or sender address, a question section other than the one question asked, or not marked as a response) are never used, and every query carries a freshly drawn unpredictable id.',
  ['inputs','histories','fault_sequences'],'all replies of attacker-controlled nameservers (foreign glue, foreign NS owners that are string suffixes or siblings, unrelated records in every section, spoofed datagrams), all interleavings of attacker and victim lookups on one resolver',
  UT+' Cache poisoning needs an adversarial upstream and a history of lookups.',
  [B+'requests.rs',B+'recursive.rs',B+'utils.rs',D+'header.rs'],
  [('record filtering by name and type','extract_records'),('delegation filters','extract_next_nss_for_subzone / extract_next_nss_for_cname'),('id check','send_query')],
  ['Lookup::perform on the same Resolver after attacker lookups; ids of sent datagrams'])

p('C21','The resolver front end reports outcomes faithfully',
  'For a valid query the resolver server replies with the id and question of the request, RA set and AA clear: NOERROR with exactly the records found by the lookup (CNAME chain first) when it succeeds, NXDOMAIN with no answers when the name does not exist, SERVFAIL with no answers when the lookup fails. The same holds whatever the cache state and over both transports.',
  ['inputs','histories'],'all queries over generated DNS trees with working, broken and missing names, and all header bits of the request',
  UT+' The handler is untested and depends on the lookup result and the request jointly.',
  [R+'handler.rs',B+'recursive.rs'],[('result mapping','handle_query / handle_err'),('header','resp_header_from_req_header')],
  ['DnsHandler::handle_request of ResolverHandler'])

p('C22','Configuration is validated before use',
  'A configuration file is accepted exactly when it is valid JSON with all the fields of the expected types and ranges, its listening addresses are valid IPs, no thread count, timeout, limit or period that must be positive is zero, and every zone name is a valid absolute name; an accepted configuration carries exactly the values in the file. Anything else, including a missing or unreadable file, is refused with an error and never a crash.',
  ['configurations','inputs'],'all configurations of both programs: valid ones, and valid ones with any one field missing, of a wrong type, out of range, zero or malformed, and arbitrary text',
  UT+' No configuration is loaded by any test.',
  [N+'conf.rs',R+'conf.rs'],[('validation','Conf::validate of both programs'),('typed deserialisation','Conf::from_file')],
  ['conf::Conf::from_file of nameserver and resolver'])

p('C23','If one server cannot run, both are shut down',
  'When either the UDP or the TCP server cannot start (for example its address is already in use or not available), the service as a whole stops instead of running half-available: both servers are shut down, both ports are released and the call that started them returns. While both can run, the call does not return and both keep serving.',
  ['fault_sequences','schedules'],'all combinations of which server fails to start and why, loopback addresses and ports, thread counts, with and without a request load',
  UT+' Start-up failures are never exercised.',
  [S+'setup.rs',S+'udp_server.rs',S+'tcp_server.rs'],[('notification channel and stop flag','start_servers'),('wake-up messages','wake_up_servers')],
  ['start_servers return, bindability of the ports afterwards'])

p('C24','Tracing observes lookups without changing them',
  'The tracing options never change the result of a lookup or the upstream queries it makes. With tracing silenced the trace is empty; otherwise it reports, in order, each nameserver query actually attempted (name, type, nameserver and zone), including those of nested lookups and of failed attempts, the failure of those that fail, and the records received; raw replies appear only in verbose mode, with every record at the query it replies to, and without colors the output contains no terminal control sequences.',
  ['inputs','configurations'],'all lookups over generated DNS trees and fault patterns under all combinations of the tracing options',
  UT+' Nothing runs a lookup.',
  [B+'trace.rs',B+'recursive.rs'],[('silent/verbose guards','Trace::t_* methods'),('sub traces','Trace::add_sub_trace')],
  ['Trace Display, Trace::is_empty, lookup results'])

p('C25','The case of letters in domain names carries no meaning',
  'Names that differ only in the case of their letters are the same name everywhere: the nameserver loads a zone and answers queries in the same way whatever the case in which the names are written in its configuration, in its master files (owners, names inside record data, $ORIGIN and $INCLUDE) and in the queries; the resolver gives the same outcome, sends the same upstream queries and makes the same use of its cache whatever the case of the names looked up and of the names in the replies of the nameservers. The question is echoed in a reply exactly as it was sent.',
  ['inputs','histories'],'all zones and queries, and all DNS trees and histories of lookups, rewritten with letters of any case in any of the names',
  UT+' A rewriting that must not matter can be applied to any subset of the names in any zone, query or reply.',
  [D+'name.rs',N+'zones/parser.rs',N+'handler.rs',B+'recursive.rs',B+'utils.rs',B+'cache.rs'],
  [('equality and hash of names','Name PartialEq/Hash'),('containment','Name::is_in_zone')],
  ['parse_zone_files','DnsHandler::handle_request','Lookup::perform and the datagrams sent'])

p('C26','Running out of file descriptors and failing socket calls are survived',
  'When the process runs out of file descriptors, or its calls to receive datagrams, accept connections or send replies fail for a while, whatever the number of TCP clients that connect, ask, stall or leave in the meantime, neither server ends: requests over UDP and requests on already accepted connections keep being answered, and when the shortage is over every client that has sent a request gets its reply and both servers serve with all their threads as before.',
  ['fault_sequences','schedules'],'all numbers of descriptors left, numbers and behaviours of TCP clients, thread counts and points in time at which the descriptors run out and come back',
  UT+' Exhaustion of a resource of the process is not reachable by unit tests.',
  [S+'tcp_server.rs',S+'udp_server.rs'],[('accept loop','TcpServer::run'),('shared socket','UdpResponse')],
  ['start_servers over loopback sockets in a process of its own'])

p('C27','The programs run the service their configuration describes',
  'The nameserver and the resolver programs, started with the path of a valid configuration file, keep serving over UDP and over TCP on exactly the address and port configured for each, with the configured number of threads for each, and drop TCP clients that send nothing after the configured read timeout. The nameserver serves the configured zone and sub zones, loaded with the configured starting and minimum TTLs; the resolver follows aliases, tries nameservers and repeats attempts up to the configured limits, waits for replies for the configured read timeout, keeps fresh records cached while expired ones are cleaned periodically, and writes the lookup traces that its tracing options ask for; neither logs anything beyond the configured level. Started with another number of arguments, without a readable valid configuration, or with zone files that cannot be loaded, a program ends promptly, reporting failure in its exit status, without a panic.',
  ['configurations','inputs','fault_sequences'],'all configuration files of both programs (addresses, ports, thread counts, timeouts, limits, log levels, tracing options, zones), all queries, and all ways in which the start can be spoilt',
  UT+' Nothing runs the programs; the wiring of each configuration value to its effect is only visible from outside.',
  ['src/bin/nameserver.rs','src/bin/resolver.rs',N+'conf.rs',R+'conf.rs','src/shared/logs.rs',B+'cache.rs'],
  [('wiring of the parameters','main of both programs'),('log level','logs::set_max_level'),('periodic cleaning','Cache::start_clean_routine')],
  ['processes, their sockets, upstream datagrams, output and exit status'])

p('C28','Simultaneous lookups are independent',
  'Lookups made at the same time by several threads on one resolver, sharing its cache, each give an outcome that they could give alone: the true answer, non-existence or error that the DNS tree dictates, also when they ask for the same or for related names and when records expire while they are used. None of them panics, blocks the others for ever, returns a record with a TTL above the one received, or disturbs the other lookups\' queries or later ones.',
  ['schedules','histories','inputs'],'all interleavings of any number of lookups by several threads over all finite DNS trees, with time passing between any two steps',
  UT+' Races between lookups on the shared cache need particular interleavings and expiry times.',
  [B+'recursive.rs',B+'cache.rs',R+'handler.rs'],
  [('cache lock and expiry','Cache::insert/get'),('two cache searches at the start of each step','Lookup::perform_inner'),('TTL correction','search_records_in_cache')],
  ['Lookup::perform from several threads on one RecordsCache'])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
for q in P:
    assert len(q['title'])<=80,q['id']
with open(out,'w') as f:
    for q in P: f.write(json.dumps(q)+'\n')
print(len(P))
