#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

SMP="sip/parser/StringMsgParser.go"
p("S01","Parsing hostile message bytes always ends in a message or an error",
  "Given any byte sequence, parsing it as a SIP message terminates promptly, never panics, and yields either an error or a message (or, for input with nothing but line breaks, neither). Every message that was accepted can be encoded, as text and as bytes, without a panic.",
  ["inputs"],"every byte sequence presented as a datagram: truncated, mutated, spliced or random variants of real messages, including NULs, bare CR/LF, huge numbers, unterminated quotes/comments/brackets",
  "The tests feed a few dozen fixed well-formed or fixed torture messages; one unlucky byte in an untested place can panic or spin the parser, so the claim quantifies over all inputs.",
  [SMP,"sip/parser/*.go","core/CoreLexer.go","core/CoreParser.go","core/StringTokenizer.go","sip/message/*.go"],
  [("message framing and header line splitting","sip/parser/StringMsgParser.go ParseSIPMessageFromByte/ParseMessage"),("lexer bounds handling","core/CoreLexer.go"),("per-header parse error propagation","sip/parser/*Parser.go")],
  ["StringMsgParser.ParseSIPMessage","StringMsgParser.ParseSIPMessageFromByte","Message.String","Message.EncodeAsBytes"])
p("S02","Parsing any hostile single header line ends in a header or an error",
  "For every header kind the library knows (and for unknown names), parsing a header line with an arbitrary value terminates promptly without panicking and yields either an error and no header, or a header and no error. A header that was accepted can be encoded and its accessors called without a panic.",
  ["inputs"],"every header name the factory dispatches on, in long and compact form, times every value: truncations, mutations, random printable and binary text, deep repetition",
  "Each header parser has one test with a handful of well-formed samples; malformed values (where loops and missing tokens live) are not exercised at all.",
  ["sip/parser/*Parser.go","sip/parser/ParserFactory.go","core/CoreLexer.go","sip/header/*.go"],
  [("parser selection by header name","sip/parser/ParserFactory.go CreateParser"),("header parsers","sip/parser/*Parser.go Parse"),("lexer match / delimiter scanning","core/CoreLexer.go")],
  ["parser.CreateParser","Parser.Parse","Header.String","StringMsgParser.ParseSIPHeader"])
p("S03","Parsing any hostile URI, address, host or start line ends in a value or error",
  "For any text, the entry points that parse a URI, a SIP URL, an address, a host, a host:port, a telephone number, a request line or a status line terminate promptly without panicking and return either an error or a usable value, never both absent. A value that was returned can be encoded and its accessors called without a panic.",
  ["inputs"],"every string, in particular truncations and mutations of legal URIs with escapes, passwords, IPv6 references, parameters and embedded headers",
  "URI tests use a few legal URIs; nothing exercises truncated escapes, absent parts, wrong schemes or the typed entry points when the text is of another kind.",
  ["sip/parser/URLParser.go","sip/parser/AddressParser.go","core/HostNameParser.go","sip/parser/RequestLineParser.go","sip/parser/StatusLineParser.go",SMP,"sip/address/*.go"],
  [("URI grammar","sip/parser/URLParser.go"),("address grammar","sip/parser/AddressParser.go"),("host grammar","core/HostNameParser.go"),("typed facade","sip/parser/StringMsgParser.go ParseAddress..ParseSIPStatusLine")],
  ["URLParser.Parse","AddressParser.Address","StringMsgParser.Parse*"])
p("S04","A well-formed message survives parse, encode and parse again unchanged",
  "Parsing a well-formed message and encoding it gives a well-formed message that parses to the same start line, the same headers with the same values and order and the same body (the CSeq method, which is compared ignoring case, is written in upper case). Encoding is a fixpoint: encoding the re-parsed message gives exactly the same bytes, and the text and byte encodings agree.",
  ["inputs"],"every well-formed request or response composed of any mix of supported and unknown headers, any number of them, with or without a body",
  "Tests print round trips for individual samples; the claim ranges over all combinations of headers, parameters and bodies in one message.",
  [SMP,"sip/message/SIPMessage.go","sip/message/SIPRequest.go","sip/message/SIPResponse.go","sip/header/*.go"],
  [("message encoding","sip/message/SIPMessage.go String/EncodeAsBytes"),("header encoders","sip/header/*Impl.go EncodeBody")],
  ["Message.String","Message.EncodeAsBytes","StringMsgParser.ParseSIPMessageFromByte"])
p("S05","Parsed headers expose exactly the field values on the wire",
  "For every supported header kind, parsing a well-formed header gives a header whose accessors return exactly the values written on the wire: URIs, display names, tags, parameters and their values, numbers, tokens, quality values, quoted strings, dates, comments and every further parameter, nothing lost, truncated, swapped or invented.",
  ["inputs"],"every well-formed value of every supported header kind, with the field values drawn over their whole legal range",
  "The tests compare re-encoded text for a few samples; they never look at accessors over the range of values, so a swapped or truncated field goes unseen.",
  ["sip/parser/*Parser.go","sip/header/*Impl.go","core/CoreLexer.go"],
  [("header parsers","sip/parser/*Parser.go"),("header accessors","sip/header/*Impl.go")],
  ["Parser.Parse","header accessors"])
p("S06","Equivalent wire spellings of a header mean the same thing",
  "Header names in any letter case and in their compact form, extra spaces or tabs around separators where the grammar allows them, folded continuation lines (a continuation line is appended without its first white space character), and CRLF or bare LF line endings are equivalent spellings: they parse to the same headers with the same values and the same encoding as the plain spelling.",
  ["inputs"],"every well-formed message times every combination of equivalent spellings of its header lines",
  "The torture tests fix a single spelling each; equivalence is a relation between two parses over all messages and spellings.",
  ["sip/parser/ParserFactory.go","sip/parser/SIPLexer.go",SMP,"sip/parser/*Parser.go"],
  [("header name dispatch and keyword tables","sip/parser/ParserFactory.go, sip/parser/SIPLexer.go"),("line folding","sip/parser/StringMsgParser.go"),("whitespace skipping","core/CoreLexer.go SPorHT")],
  ["StringMsgParser.ParseSIPMessage","parser.CreateParser"])
p("S07","Repeated headers keep every occurrence in wire order",
  "For header kinds that may occur several times, the values of a comma-separated line and of repeated lines are all kept, in wire order, so that both spellings give the same list and the first Via, Route or Record-Route on the wire is the first one returned. Headers of unknown kinds are all kept verbatim, a repeated single-valued header other than Content-Length keeps its first occurrence, and different headers keep their relative order in the encoding.",
  ["inputs"],"every way to distribute any number of values over comma lists and repeated lines, interleaved with other headers",
  "Tests parse lists of one or two values on one line; order and completeness across lines is never checked.",
  ["sip/message/SIPMessage.go","sip/header/SIPHeaderList.go","sip/header/ViaList.go",SMP],
  [("header attachment and list concatenation","sip/message/SIPMessage.go AttachHeader*"),("header lists","sip/header/SIPHeaderList.go")],
  ["SIPMessage.GetHeaders","SIPMessage.GetHeaderNames","SIPMessage.GetViaHeaders","Message.String"])
p("S08","The body is exactly the bytes that the content length announces",
  "The body of a parsed message consists of exactly as many bytes following the empty line as the Content-Length header announces, bit for bit, whatever the bytes are and whatever follows them. A message whose announced length exceeds the bytes available is rejected, and a message that announces zero or nothing has no body. What follows the body is left unread in the parser, all of it and nothing else.",
  ["inputs"],"every body (binary, text, containing CRLF CRLF or header-like text), every announced length from 0 to beyond the buffer, trailing bytes of a following datagram",
  "No test looks at bodies byte for byte or at a wrong announced length.",
  [SMP,"sip/message/SIPMessage.go","sip/parser/ContentLengthParser.go"],
  [("end of header search and body slicing","sip/parser/StringMsgParser.go ParseSIPMessageFromByte/GetBodyAsBytes")],
  ["SIPMessage.GetRawContent","SIPMessage.GetMessageContent","SIPMessage.EncodeAsBytes"])
p("S09","The announced content length always matches the body that is set",
  "After any sequence of setting, replacing and removing the content of a message, the message's Content-Length header equals the byte length of the current body, the body read back and the body at the end of the encoding are the last one set, and the content type reported is the last one set.",
  ["histories","inputs"],"every sequence of content set/replace/remove operations with text and binary bodies, on fresh and on parsed messages",
  "Tests never change the content of a message.",
  ["sip/message/SIPMessage.go"],
  [("content setters","sip/message/SIPMessage.go SetMessageContent*/SetContent/RemoveContent"),("length synchronisation","sip/message/SIPMessage.go")],
  ["SIPMessage.GetContentLength","SIPMessage.GetRawContent","SIPMessage.EncodeAsBytes"])
p("S10","The header collection behaves like an ordered map of header lists",
  "Under any sequence of adding, setting, replacing and removing headers on a message, every way to read it (by name in any letter case, by typed accessor, by the list of names, and by the encoding) shows one and the same collection: the one that an ordered map from header name to list of values would hold. Setting a header replaces all values of that name (moving it to the end), adding one appends to a list valued header (a Via goes on top) and does nothing to a single valued one that is present, and removing takes them all away. Reading a header that is not there reports absence and never panics.",
  ["histories"],"every sequence of add / set / remove operations over headers of all kinds, single and list valued",
  "The message tests never edit a message; the state has four redundant representations that must agree after every history.",
  ["sip/message/SIPMessage.go","sip/header/SIPHeaderList.go"],
  [("name table and ordered list","sip/message/SIPMessage.go"),("fast accessors","sip/message/SIPMessage.go")],
  ["SIPMessage.GetHeader","SIPMessage.GetHeaders","SIPMessage.GetHeaderNames","SIPMessage.HasHeader","Message.String"],
  state=[("headers","ordered header collection of a message","sip/message/SIPMessage.go"),("nameTable","name to header index","sip/message/SIPMessage.go")])
p("S11","What a parser returns depends only on the bytes it is given",
  "Parsing the same bytes gives the same result whatever the parser instance parsed, accepted or rejected before and in whatever letter case its names were written then, however often it is repeated and whether or not the parser's trace is on, and the caller's buffer is neither modified nor aliased by the result. Editing one result changes no other result, earlier or later, nor any other part of the same message, equal parts included.",
  ["histories","inputs"],"every history of earlier parses (valid, invalid, with and without bodies) on one instance and on the process-wide shared lexer tables",
  "Tests use a new parser once per message, so leftover state is invisible to them.",
  [SMP,"sip/parser/SIPLexer.go","core/CoreLexer.go"],
  [("per-parse reset of state","sip/parser/StringMsgParser.go"),("shared keyword tables","sip/parser/SIPLexer.go, core/CoreLexer.go")],
  ["StringMsgParser.ParseSIPMessageFromByte"])
p("S12","Independent parsers and messages can be used from many goroutines at once",
  "Goroutines that each use their own parser and their own messages never race on shared memory and each obtain exactly the result a sequential run gives, for parsing, encoding, editing and building messages.",
  ["schedules"],"every interleaving of goroutines parsing, editing and encoding different messages, including the very first use in a process",
  "The tests are sequential and never run under the race detector with concurrent users.",
  ["sip/parser/SIPLexer.go","core/CoreLexer.go","core/Debug.go","core/LogWriter.go",SMP],
  [("package-level tables and flags","core/CoreLexer.go, sip/parser/SIPLexer.go, core/Debug.go, core/LogWriter.go")],
  ["race detector reports","results compared with a sequential run"])
p("S13","Start lines are validated and agree with the rest of the message",
  "A request line is accepted only as method, URI and SIP/2.0, and a status line only as SIP/2.0, a numeric code and a phrase, with exactly those values reported and encoded back. A request whose CSeq method differs from the method of its request line is rejected, wherever the CSeq header stands.",
  ["inputs"],"every method (known and extension), URI, status code and phrase, every position of the CSeq header, malformed start lines",
  "Tests use matching methods and a few legal start lines only.",
  ["sip/parser/RequestLineParser.go","sip/parser/StatusLineParser.go",SMP,"sip/header/RequestLine.go","sip/header/StatusLine.go"],
  [("start line parsers","sip/parser/RequestLineParser.go, sip/parser/StatusLineParser.go"),("method agreement check","sip/parser/StringMsgParser.go ParseMessage")],
  ["StringMsgParser.ParseSIPMessage","SIPRequest.GetMethod","SIPResponse.GetStatusCode"])
p("S14","Setters reject out-of-range values and leave the object as it was",
  "Every setter of a header or SIP URI with a documented range or null check (hop limits, quality values, sequence and response numbers, TTLs, expiry times, versions, warning codes, method lists, mandatory strings) accepts exactly the values in range, which are then read back and encoded, and reports an error for the others, leaving the value and encoding unchanged.",
  ["inputs","histories"],"every setter with a documented constraint times values inside, outside and on both sides of each boundary, in any sequence of calls",
  "No test calls a setter with an illegal value.",
  ["sip/header/*Impl.go","sip/address/SipURIImpl.go"],
  [("argument checks in setters","sip/header/*Impl.go Set*")],
  ["header setters and getters","Header.String"])
p("S15","A parse-error handler sees every bad header and can let parsing go on",
  "When an error handler is registered, it is called exactly once for each malformed header line, with that line and the message being built; if it swallows the error the rest of the message is parsed and the well-formed headers are all present, and if it returns an error the parse fails with that error. Without a handler the first malformed line fails the parse. While a header is being handled, the parser reports that header and its line number as the current ones.",
  ["inputs","histories"],"every subset of header lines of a message replaced by malformed ones, every pattern of swallowing and failing",
  "No test registers a handler.",
  [SMP,"sip/parser/ParseExceptionListener.go"],
  [("listener call sites","sip/parser/StringMsgParser.go ParseMessage")],
  ["ParseExceptionListener.HandleException","StringMsgParser.ParseSIPMessage"])
p("S16","URIs report and re-encode exactly the components that were written",
  "Parsing any legal SIP, telephone or other URI reports exactly the written scheme, user, password, host, port, parameters and embedded headers (in order), and encoding it gives a URI that parses to the same components; a URI without parameters and headers encodes to the text that was parsed.",
  ["inputs"],"every legal URI: escaped characters, passwords, unreserved marks, IPv4, IPv6 references and names, any parameters (with and without values) and headers, tel: global and local numbers",
  "URI tests print the encodings of about a dozen URIs and never check components.",
  ["sip/parser/URLParser.go","sip/address/SipURIImpl.go","sip/address/TelURLImpl.go","sip/address/Authority.go","core/HostPort.go","core/Host.go"],
  [("URI parser","sip/parser/URLParser.go"),("URI encoders","sip/address/*.go String")],
  ["URLParser.Parse","SipURIImpl accessors","String"])
p("S17","Editing a URI changes exactly the component that was set",
  "After any sequence of setting and removing the user, password, host, port, parameters and headers of a SIP URI, its accessors report the last value set for each component and absence (never a panic) for those removed or never set, and its encoding contains exactly these components and parses back to them.",
  ["histories"],"every sequence of edits on URIs built from scratch or parsed",
  "No test edits a URI.",
  ["sip/address/SipURIImpl.go","sip/address/Authority.go","sip/address/UserInfo.go","core/HostPort.go","core/NameValueList.go"],
  [("URI setters","sip/address/SipURIImpl.go"),("parameter storage","core/NameValueList.go")],
  ["SipURIImpl setters and getters","SipURIImpl.String"])
p("S18","Addresses keep display name, URI and header parameters apart",
  "Parsing a legal address in angle-bracket or bare form, with a quoted, token or absent display name, reports exactly the display name and URI written; parameters inside the brackets belong to the URI and those after them belong to the header; those after a bare URI belong to the header in From and To. Encoding gives an address that parses to the same parts.",
  ["inputs"],"every legal address: display names with spaces, commas, semicolons, colons, slashes, angle brackets and escapes inside quotes; all URI kinds; with and without parameters on either side",
  "Address tests print two or three samples.",
  ["sip/parser/AddressParser.go","sip/parser/AddressParametersParser.go","sip/address/AddressImpl.go","sip/parser/FromParser.go","sip/parser/ToParser.go","sip/parser/ContactParser.go"],
  [("address form detection","sip/parser/AddressParser.go Address"),("address encoder","sip/address/AddressImpl.go String")],
  ["AddressParser.Address","From/To/Contact/Route accessors"])
p("S19","Host names, IPv4 and IPv6 hosts and ports are recognised and kept",
  "Parsing a legal host with or without a port reports the host exactly as written, whether it is a name, an IPv4 or an IPv6 address, and exactly the port or its absence; encoding gives a text that parses to the same host and port. Empty hosts, unterminated IPv6 references and ports that are not numbers are rejected with an error.",
  ["inputs"],"every host name, IPv4 address, bracketed IPv6 address and port 0-65535, and malformed neighbours of them",
  "Host tests print the results of a dozen samples.",
  ["core/HostNameParser.go","core/Host.go","core/HostPort.go"],
  [("host grammar","core/HostNameParser.go"),("host classification","core/Host.go")],
  ["HostNameParser.GetHostPort","Host accessors","HostPort.String"])
p("S20","Parameter lists behave like an ordered map and encode what they hold",
  "Under any sequence of setting, replacing, removing and looking up parameters, on a parameter list or on any header or URI that has parameters, lookups by name in any letter case report the last value set (or absence), setting never makes a parameter appear twice, and names and encoding list exactly the present parameters in order: one that is set again keeps its place in a header and moves to the end of a bare list or of a URI.",
  ["histories"],"every sequence of parameter operations with flag, token and quoted values",
  "No test edits parameters.",
  ["core/NameValueList.go","core/NameValue.go","sip/header/ParametersImpl.go","sip/address/SipURIImpl.go"],
  [("parameter list","core/NameValueList.go"),("parameter header base","sip/header/ParametersImpl.go")],
  ["NameValueList","ParametersHeader.SetParameter/GetParameter/RemoveParameter","String"])
p("S21","A response made from a request answers exactly that request",
  "A response created from any well-formed request carries the given status code and the matching phrase, and exactly the request's From, To, Call-ID, CSeq, Timestamp (if there is one) and the complete Via and Record-Route lists in the same order, and no body; it has the request's transaction identifier and parses back as a well-formed response. The request is left unchanged, also when the status, To tag, content or set of headers of the response is edited afterwards.",
  ["inputs"],"every well-formed request times every status code 100-699, with any number of Via and Record-Route values",
  "No test derives a response.",
  ["sip/message/SIPRequest.go","sip/message/SIPResponse.go"],
  [("response construction","sip/message/SIPRequest.go CreateResponse/CreateResponse2")],
  ["SIPRequest.CreateResponse","SIPResponse.String","SIPRequest.EncodeAsBytes"])
p("S22","Derived ACK, CANCEL and BYE requests match and do not disturb the original",
  "A CANCEL or ACK derived from a request carries its request URI, From, Call-ID, CSeq number and top Via, with its own method in the start line and CSeq; a CANCEL also its To and Route and no Require or Proxy-Require, an ACK the To it is given, no other Via and no Route. A request derived for the dialog has its own method, the Call-ID, CSeq number, From and To (exchanged on demand) and one Via without branch. Deriving such a request leaves the original request and response unchanged, encoding to the same bytes as before, and the derived request parses back as well formed.",
  ["inputs","histories"],"every well-formed request, and every sequence of derivations from the same original",
  "No test derives a request.",
  ["sip/message/SIPRequest.go","sip/message/SIPResponse.go","sip/header/RequestLine.go"],
  [("request construction","sip/message/SIPRequest.go CreateCancelRequest/CreateAckRequest/CreateBYERequest/CreateACKRequest")],
  ["SIPRequest.CreateCancelRequest","SIPRequest.CreateAckRequest","SIPRequest.CreateACKRequest","SIPRequest.CreateBYERequest"])
p("S23","Transaction identifiers match exactly the messages of one transaction",
  "For messages whose top Via carries a branch of the current standard, the transaction identifier depends on the branch alone (case-insensitively), so a request, its retransmissions, its CANCEL and its responses agree and requests with different branches differ. For other messages it is the same for every copy of the request and differs, letter case aside, whenever the Call-ID, the CSeq number or method, the From tag, the user, host or port of From or To, or the top Via's sent-by host or port alone differs (a sent-by without port standing for 5060).",
  ["inputs"],"every pair of messages that do or do not belong to the same transaction",
  "No test computes transaction identifiers.",
  ["sip/message/SIPMessage.go"],
  [("identifier computation","sip/message/SIPMessage.go GetTransactionId")],
  ["SIPMessage.GetTransactionId"])
p("S24","Dialog identifiers are the same for all messages of one dialog and only those",
  "The dialog identifier of a request or response is a function of Call-ID and the two tags: at one party it is the same for every message of one dialog, sent or received, computed in the party's role for that message, and it differs, letter case aside, when the Call-ID or either tag alone differs.",
  ["inputs"],"every pair of messages with equal or different Call-IDs and tags, computed as client and as server",
  "No test computes dialog identifiers.",
  ["sip/message/SIPRequest.go","sip/message/SIPResponse.go"],
  [("identifier computation","sip/message/SIPRequest.go GetDialogId, sip/message/SIPResponse.go GetDialogId")],
  ["SIPRequest.GetDialogId","SIPResponse.GetDialogId"])
p("S25","Authentication headers keep scheme, parameters and quoting",
  "Challenges, credentials and authentication-info keep their scheme and every parameter, in order, through parsing, reading and encoding. Values set by the application are read back, and encoded with the quoting of that parameter: the quoted-string parameters (realm, nonce, cnonce, opaque, username, domain, uri, response, rspauth, nextnonce) always quoted, the nonce count as eight hexadecimal digits and stale unquoted, others quoted when they are not a token.",
  ["inputs","histories"],"every scheme and every combination and order of standard and extension parameters, and any sequence of setter calls",
  "Tests re-encode one or two samples per header.",
  ["sip/header/AuthenticationImpl.go","sip/header/AuthenticationInfoImpl.go","sip/header/Challenge.go","sip/parser/ChallengeParser.go","sip/parser/AuthenticationInfoParser.go"],
  [("challenge grammar","sip/parser/ChallengeParser.go"),("quoting on set","sip/header/AuthenticationImpl.go SetParameter")],
  ["WWW-Authenticate, Proxy-Authenticate, Authorization, Proxy-Authorization, Authentication-Info accessors"])
p("S26","Headers built with setters encode to text that parses back the same",
  "For every header kind, a header created from scratch and filled through its setters encodes to a well-formed header line, and parsing that line gives a header whose accessors return the values that were set and whose encoding is identical.",
  ["inputs","histories"],"every header kind times every legal combination of field values, set in any order",
  "Tests only start from text; constructors, setters and encoders of most headers are never run by them.",
  ["sip/header/*Impl.go","sip/header/*List.go","sip/parser/*Parser.go"],
  [("setters and encoders","sip/header/*Impl.go Set*/EncodeBody")],
  ["header constructors, setters, String"])
p("S27","Status codes have the right phrase and the right final/provisional class",
  "A response reports itself final exactly for status codes 200 to 699; the standard phrase (letter case aside) is supplied for every code the library names, and a caller's own phrase is kept. The status code and phrase set are the ones read back and encoded.",
  ["inputs"],"all status codes 100-699, all phrases, any sequence of status changes",
  "No test calls these functions.",
  ["sip/message/SIPResponse.go","sip/header/StatusLine.go"],
  [("phrase table","sip/message/SIPResponse.go GetReasonPhraseFromInt"),("final test","sip/message/SIPResponse.go IsFinalResponse*")],
  ["SIPResponse.SetStatusCode","SIPResponse.IsFinalResponse","SIPResponse.GetReasonPhrase"])
p("S28","Copies of URIs, addresses and parameter lists are equal and independent",
  "A copy made of a host, host and port, authority, user information, URI, telephone number, parameter list, Via, From, To, Contact or CSeq header (also of a From as a To or the other way round), or Via or Contact list encodes identically to the original, and any later change to either leaves the other's encoding unchanged, at whatever depth it is made.",
  ["histories"],"every value and every sequence of edits to the original or the copy after copying",
  "No test clones anything.",
  ["core/Host.go","core/HostPort.go","core/NameValueList.go","sip/address/*.go"],
  [("Clone methods","core/*.go, sip/address/*.go")],
  ["Clone","String"])
p("S29","Reading a message never changes it, and readers may share it",
  "Reading a message and the headers, URIs and addresses it hands out (accessors, header lookups, identifiers, CheckHeaders, encoding as text or bytes) never panics on a well-formed message and leaves everything it reports and encodes as it was, and the same read gives the same result again. Any number of goroutines may read one message, or one host, at once: no data race, and each reads what it would read alone. (GetTelephoneSubscriber, which makes an absent part for its caller to fill in, is not a read in this sense.)",
  ["schedules","histories"],"every well-formed message, parsed or built, every sequence of reads of it and of what it returns, every interleaving of concurrent readers",
  "No test reads twice, compares before and after a read, or shares a message between goroutines.",
  ["sip/message/SIPMessage.go","sip/message/SIPRequest.go","sip/message/SIPResponse.go","sip/header/*.go","sip/address/*.go","core/Host.go"],
  [("message accessors","sip/message/SIPMessage.go"),("lazy values","sip/message/SIPMessage.go GetMessageContent, core/Host.go GetInetAddress"),("encoders","String/EncodeAsBytes/EncodeBody")],
  ["race detector reports","String and accessors before and after"])
p("S30","States and timeouts are found by their number, and only those",
  "Looking up a dialog state, a transaction state or a timeout by any integer gives exactly the exported constant with that number, whose number and name are its own, and an error and nothing for every other integer.",
  ["inputs"],"every integer",
  "The sip package has no tests.",
  ["sip/DialogState.go","sip/TransactionState.go","sip/Timeout.go"],
  [("tables","sip/DialogState.go, sip/TransactionState.go, sip/Timeout.go")],
  ["GetDialogState","GetTransactionState","GetTimeout","GetValue","ToString"])
p("S31","Lexer operations return exactly the characters they consume",
  "For any text and any sequence of lexer operations (tokens, tokens with blanks, ids, look-ahead of characters and tokens, matching of ids, keywords, character classes and characters, quoted strings, comments, text up to a character, numbers, blanks, lines, mark and rewind), each operation returns exactly the characters the grammar gives it at the current position and moves the position past exactly these; peeking does not move it, consuming after a peek moves past what was peeked, rewinding restores the marked position, and nothing is skipped or read twice. Lines and header names and values are cut at exactly the first separator.",
  ["inputs","histories"],"every text, every sequence of operations on it, with and without keyword tables",
  "The lexer is exercised only through the header parsers on well-formed lines.",
  ["core/CoreLexer.go","core/StringTokenizer.go","sip/parser/SIPLexer.go"],
  [("token scanning","core/CoreLexer.go"),("character and line access","core/StringTokenizer.go")],
  ["CoreLexer operations","StringTokenizer operations","GetPtr","GetRest"])
p("S32","Message checks report exactly what is missing, and defaults fill only gaps",
  "CheckHeaders reports a request exactly if CSeq, To, From, Via or Max-Forwards is missing or the method of the request line and of CSeq differ (letter case aside), and a response exactly if CSeq, To, From or Via is missing, naming a header that is missing, at every point of any history of removing and adding these headers. A header value is classified as belonging only in requests, or only in responses, by its kind, alone or in a list. SetRequestLineDefaults gives a request line without a method the method of CSeq and changes nothing else; SetDefaults sets the user and transport parameters of the SIP Request-URI of an INVITE or REGISTER and changes nothing else.",
  ["histories","inputs"],"every message, parsed or built, and every order of removing and adding the mandatory headers",
  "No test calls these operations.",
  ["sip/message/SIPRequest.go","sip/message/SIPResponse.go","sip/message/SIPMessage.go"],
  [("checks","sip/message/SIPRequest.go CheckHeaders, sip/message/SIPResponse.go CheckHeaders"),("defaults","sip/message/SIPRequest.go SetDefaults, SetRequestLineDefaults"),("classification","sip/message/SIPMessage.go IsRequestHeader, IsResponseHeader")],
  ["CheckHeaders","IsRequestHeader","IsResponseHeader","SetDefaults","SetRequestLineDefaults"])
p("S33","Every way to make a header parser gives the same result",
  "For every header kind, giving a header line to the parser made by the factory, to that kind's own parser made from the text or from a lexer, and to ParseSIPHeader gives the same header, or an error from all of them; well-formed lines are accepted by all. The same holds for the parsers of URIs, addresses, hosts, request lines and status lines made from a text and from a lexer, which also stop at the same position. None of them panics or yields neither a value nor an error.",
  ["inputs"],"every header line of every kind, well-formed or damaged, and every URI, address, host and start line",
  "Tests use one constructor per kind on a few well-formed lines; the constructors that take a lexer are not tested.",
  ["sip/parser/*Parser.go","sip/parser/ParserFactory.go","sip/parser/SIPParser.go","core/HostNameParser.go"],
  [("constructors","sip/parser/*Parser.go NewXParser, NewXParserFromLexer"),("factory","sip/parser/ParserFactory.go CreateParser")],
  ["NewXParser","NewXParserFromLexer","CreateParser","ParseSIPHeader"])
p("S34","Fields that were set are reported, the others are absent, in any order of edits",
  "For every header kind, address, SIP and tel URI, host and port, parameter, media range, challenge, request and status line, raw packet, request and response: after any sequence of setting, replacing and removing fields (also through equivalent methods: a typed setter or the parameter of that name), every getter reports the value last set, or absence for a field that was never set or was removed, no edit changes another field or the order of the other parameters, and reading and encoding change nothing. An object made by a constructor that takes values reports those values. Objects that are empty or only partly filled can be read, filled by any of their setters in any order, and encoded without a panic.",
  ["histories"],"every sequence of edits of every kind of object, with any value of each field",
  "Tests parse whole headers; hardly any setter or remover, and no sequence of them, is tested.",
  ["sip/header/*.go","sip/address/*.go","sip/message/SIPRequest.go","sip/message/SIPResponse.go","core/NameValueList.go","core/HostPort.go","rtp/rawpacket.go"],
  [("setters, getters and removers","sip/header/*.go, sip/address/*.go, sip/message/SIP*.go"),("parameter lists","core/NameValueList.go, sip/header/ParametersImpl.go")],
  ["Set*/Get*/Has*/Is*/Remove* of every object","String","NewX constructors"])
p("S35","Messages logged to a file are appended to it whole and in order",
  "Logging a message to a file appends the separator and the message, byte for byte, after everything the file held before, creating the file if it is not there; other files stay as they are, and a file that cannot be opened makes logging neither fail nor panic. When many goroutines log to one file, every message is in it exactly once and whole, those of one goroutine in order, without a data race. The trace level is the one last set.",
  ["histories","schedules","inputs"],"every history of messages of any content to new, existing and unusable files, and every interleaving of goroutines logging to one file",
  "There are no tests of logging.",
  ["core/LogWriter.go"],
  [("append to the file","core/LogWriter.go LogMessageToFile")],
  ["LogWriter.LogMessageToFile","LogWriter.SetTraceLevel/GetTraceLevel","file contents","race detector reports"],
  state=[("log files","files on disk, opened and closed for each message","core/LogWriter.go")])
p("S36","Every grammar rule takes exactly the characters that belong to it",
  "Each parsing method for an element of the SIP and URI grammar (users, passwords, hosts, ports, parameters, headers, telephone numbers, tokens, quoted strings, escapes and the character classes) takes at the position it is called the longest text the rule allows there, returns that text or the value it denotes, leaves the rest unread, and reports an error when the rule does not match, whatever precedes and follows it. The character class predicates hold for exactly the characters of the class.",
  ["inputs"],"every text before, at and after the position, for every rule; every byte for every character class",
  "Tests run whole headers through the parsers and print the result; no rule is called on its own or on text that stops matching in the middle.",
  ["sip/parser/URLParser.go","sip/parser/SIPParser.go","core/HostNameParser.go","core/CoreParser.go","core/CoreLexer.go","core/Lexer.go"],
  [("URI productions","sip/parser/URLParser.go"),("character classes and scanners","core/*.go")],
  ["URLParser methods","HostNameParser.GetHostPort","SIPParser methods","CoreParser methods","Lexer predicates"])
p("S37","The small text helpers, event matching and tokens do what they say",
  "The hexadecimal form of bytes, the quoted form of a text and its form without blanks in lower case are exact for every text, in any character set; two Event headers match exactly when their types and their ids (or absence of one) are equal regardless of letter case; a content length matches exactly content lengths; a token holds what was put in last and a copy of it is independent.",
  ["inputs"],"every text and byte sequence, every pair of event headers, parsed and built",
  "There are no tests of these.",
  ["sip/message/Utils.go","sip/header/EventImpl.go","sip/header/ContentLengthImpl.go","core/Token.go"],
  [("helpers","sip/message/Utils.go"),("matching","sip/header/EventImpl.go Match")],
  ["ToHexString","GetQuotedString","ReduceString","Event.Match","ContentLength.Match","Token"])
p("S38","Malformed header values are rejected, never accepted in part",
  "A header line whose value no reading of its grammar allows is rejected with an error and yields no header, instead of being accepted with part of it ignored: a number that is not one or has something attached, a required part that is missing, a part too many or text after the end of the value, a quoted string, comment or angle bracket left open, a parameter without a name or with a value that is none, a list with an empty element, a date or version that is none. (Free-text headers, commas replaced by blanks or left at the end in lists of tokens and in Reason, parameters that have no value, and ranges of parameter values are not part of this.)",
  ["inputs"],"every malformed header line of every kind with a grammar, by templates and by damage to well-formed lines",
  "Tests parse well-formed headers; a dozen torture messages are the only malformed input, and most are not checked for being rejected.",
  ["sip/parser/*Parser.go","core/CoreParser.go","core/CoreLexer.go"],
  [("header parsers","sip/parser/*Parser.go Parse"),("end of line","sip/parser/*Parser.go lexer.Match('\\n')")],
  ["Parse","ParseSIPHeader","CreateParser"])
p("R01","RTP packets survive build, parse and field access bit for bit",
  "A packet built from any payload type, marker, sequence number, timestamp, sender, up to 15 contributing sources, header extension and payload has the layout the RTP standard prescribes, and parsing it reports exactly these values and this payload; parsing a standard-conforming packet from elsewhere (including padding) does so too. The builder refuses more than 15 sources, payload types above 127 or confusable with RTCP, and slices shorter than announced, and a packet does not depend on the caller's buffers afterwards.",
  ["inputs"],"every combination of the header fields over their full ranges, 0-15 contributing sources, extensions of any length, any payload and padding",
  "There are no RTP tests.",
  ["rtp/rtp.go","rtp/rtppacket.go"],
  [("header and extension codec","rtp/rtp.go"),("packet builder and parser","rtp/rtppacket.go")],
  ["RTPPacket.BuildPacket","RTPPacket.ParseRawPacket","RTPHeader.Encode/Parse","RTPExtension.Encode/Parse"])
p("R02","Hostile RTP and RTCP bytes are rejected or read within bounds",
  "Given any byte sequence, parsing it as an RTP packet, RTP header, header extension, RTCP BYE or RTCP APP packet, and then reading every field, never panics and never reads outside the buffer: the packet is either rejected (as an error or as not of a known format; always for a wrong version) or all its fields lie within the bytes received.",
  ["inputs"],"every byte sequence, in particular truncated packets and wrong counts, lengths and padding sizes",
  "There are no RTP tests.",
  ["rtp/rtp.go","rtp/rtppacket.go","rtp/rtcpbyepacket.go","rtp/rtcpapppacket.go","rtp/rtcppacket.go","rtp/rawpacket.go"],
  [("length checks","rtp/rtppacket.go ParseRawPacket, rtp/rtp.go Parse, rtp/rtcp*packet.go")],
  ["NewRTPPacketFromRawPacket","NewRTPHeaderFromBytes","NewRTPExtensionFromBytes","NewRTCPBYEPacket","NewRTCPAPPPacket"])
p("R03","RTCP BYE and APP packets report exactly their fields",
  "For every standard-conforming RTCP BYE packet the listed sources, and the reason with its exact length, are reported; for every APP packet the subtype, source, four-character name and application data are reported; a well-formed packet is recognised as known and its absent parts are reported absent.",
  ["inputs"],"0-31 sources, reasons of 0-255 bytes, any subtype, name, and application data length, with and without padding",
  "There are no RTP tests.",
  ["rtp/rtcpbyepacket.go","rtp/rtcpapppacket.go","rtp/rtcppacket.go"],
  [("BYE field access","rtp/rtcpbyepacket.go"),("APP field access","rtp/rtcpapppacket.go")],
  ["RTCPBYEPacket accessors","RTCPAPPPacket accessors"])
p("R04","RTP time arithmetic, comparison and NTP conversion are consistent",
  "Adding and then subtracting a time gives back the original, sums and differences equal those of exact microsecond arithmetic with the microsecond part kept below one second, exactly one of less, equal and greater holds for any two times, and converting to an NTP timestamp and back changes a time by at most one microsecond. The exactness is claimed while results stay below 2^32 seconds and times within the NTP era.",
  ["inputs"],"all non-negative times, with microseconds 0-999999, and all NTP timestamps",
  "There are no RTP tests.",
  ["rtp/rtptime.go","rtp/ntptime.go"],
  [("time arithmetic","rtp/rtptime.go")],
  ["RTPTime.Add/Sub/LT/GT/ELT/EGT","NewRTPTimeFromNTPTime","RTPTime.GetNTPTime"])
p("R05","The collision list remembers exactly the addresses seen recently enough",
  "Under any history of address sightings, clears and timeouts, an address is reported present exactly if it was seen since the last clear and its latest sighting is not older than the delay at any timeout since; a sighting is reported as new exactly when the address was absent. Later changes to a caller's address object do not change the list.",
  ["histories"],"every history of updates, queries, timeouts and clears over IPv4, IPv6 and host-name addresses with equal and different ports",
  "There are no RTP tests.",
  ["rtp/collisionlist.go","rtp/ipaddress.go","rtp/hostaddress.go"],
  [("collision list","rtp/collisionlist.go"),("address equality","rtp/ipaddress.go, rtp/hostaddress.go")],
  ["CollisionList.UpdateAddress/HasAddress/Timeout/Clear"])
p("R06","The random generator follows its reference sequence, also under concurrency",
  "From a given seed the generator yields exactly the sequence of the standard 48-bit linear congruential generator, truncated to the requested width and always below one for fractions; concurrent callers draw distinct positions of that same sequence, none lost or repeated, and without a data race.",
  ["schedules","inputs"],"every seed, every mix of 8, 16, 32 bit and fractional draws, every interleaving of concurrent callers",
  "There are no RTP tests.",
  ["rtp/random.go"],
  [("generator state and lock","rtp/random.go")],
  ["RandomRand48.GetRandom8/16/32/Double"],
  state=[("state","48-bit generator state guarded by a mutex","rtp/random.go")])
p("R07","Independent RTP objects can be used from many goroutines at once",
  "Goroutines that each build, parse and inspect their own RTP and RTCP packets, times and collision lists never race on shared memory, and each gets the result a sequential run gives, also on the very first use in a process.",
  ["schedules"],"every interleaving of goroutines working on their own packets, including first use",
  "There are no RTP tests.",
  ["rtp/rtp.go","rtp/rtppacket.go","rtp/rtptime.go"],
  [("process-wide byte-order flag","rtp/rtp.go CheckEndian")],
  ["race detector reports","results compared with a sequential run"])
p("R08","Transmission information and parameters hold exactly what was set",
  "Transmission information reports the addresses and sockets it was made with, and the transmitter type of its first address (an IPv4 address in 4 or 16 bytes is IPv4). Transmission parameters start with the documented defaults and, after any history of changes, each reports the value it was last set to, independent of the others and of other parameter objects.",
  ["histories"],"every list of addresses, all socket and size values, every order of changes",
  "There are no RTP tests.",
  ["rtp/transmissioninfo.go","rtp/transmissionparams.go"],
  [("accessors","rtp/transmissioninfo.go, rtp/transmissionparams.go")],
  ["TransmissionInfo accessors","TransmissionParams accessors"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
