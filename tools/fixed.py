#!/usr/bin/env python3
"""Adds the entries of repaired defects to known_findings.json (run by hand)."""
import json, os
F = os.path.join(os.path.dirname(__file__), '..', 'known_findings.json')
L = """
S02 1ea1ea4 a quoted string, a comment or a bracket without its end at the end of the text, and calls to the lexer past it, panicked or looped instead of returning an error
S19 95e9e5b a host written as a name, an IPv4 or an IPv6 address was classified wrongly and lost its brackets
S20 e52b599 parameter lists found names only in the letter case written, and copies shared or lost entries
R01 522b7cc an RTP packet's fixed header, extension and payload were read and written outside their bounds (panic, or neighbouring bytes)
R02 d91df0a a short RTCP BYE or APP packet made the reader panic
R05 83c7f26 the collision list dropped addresses at the wrong time and kept references to the caller's address bytes
R06 fbaf6ea seeding the random generator raced with draws from it
S17 129987c SIP URI accessors returned other components, and editing one component changed others
S16 e428baa a telephone URL, and an address or URI without some part, panicked when read or encoded
S25 74fa9f0 authentication parameters were quoted where the standard has tokens (and not where it has strings), and the nonce count lost its form
S14 80be9ff q values that are not numbers (NaN) were accepted
S26 44b8ad6 Alert-Info, Call-Info and Error-Info panicked on URIs other than SIP URIs
S14 a95b7da a call identifier lost its old value when a setter refused the new one
S28 c003ab4 copies of From, To, Contact, CSeq, Via and the request line lost or shared their content
S26 b22cbcd setters and encoders of single-valued headers set other fields, panicked without a value, or encoded text that does not parse back
S10 6a2e65f headers attached to, read from or removed from a message were lost, duplicated or out of order; bodies read back differently
S22 9301f43 making an ACK, CANCEL, BYE or other request from a request changed the original
S21 751f242 a response encoded its status line wrongly and derived other dialog identifiers than its request
S08 222363a message framing, folding and error reporting: bodies cut or prolonged, folded lines lost, errors swallowed
S16 84dec73 the rest of a URI that cannot be parsed was dropped silently
S18 fda18e9 addresses lost or mixed up display name, URI parameters and header parameters
S05 0fec58d Via lost parameters, comment, or port, and malformed ones panicked
S25 9c71852 authentication headers lost parameters and panicked on malformed ones
S06 85baefb Accept, Accept-Encoding and Accept-Language depended on white space and lost parameters; malformed ones panicked
S05 0480ede Alert-Info, Call-Info and Error-Info lost parameters or failed on well-formed values
S13 63c4001 malformed start lines and CSeq values were accepted or panicked
S05 8c547f5 Timestamp, Retry-After and Subscription-State lost their values
S05 3ea2d46 Server, User-Agent and Warning lost or rejected parts of their value
S05 ee3ae9f malformed values of several headers were accepted in part, and complete ones cut
S27 bcb613f the reason phrases of 421 and 488 were misspelled
S13 a725835 a request whose method is the token SIP was taken for a response
S14 ff6852e a SetMethods that failed had replaced part of the list
S36 63670db a method's name was cut or refused depending on the lexer in use
S29 42d19e1 reading the body changed the message, so that two readers raced
S29 31affad reading a host's address changed the host, so that two readers raced
S32 e62d007 lists of Alert-Info and of In-Reply-To were not taken for request headers
R08 5dcb984 an IPv4 address in 16-byte form was taken for an IPv6 address
S34 0f65a5f a header made by its constructor panicked when read or encoded before its address, URI or media range was set
S35 0e96411 LogMessageToFile never wrote: it opened the file for reading
S05 9fdc832 an absolute URI with '=' was rejected
S05 9bef889 an absolute URI with an IPv6 host was rejected
S05 24a9713 a Warning whose agent has a port or an IPv6 address was rejected
S05 599b4b5 In-Reply-To rejected call identifiers that Call-ID accepts
S06 e4abfc2 a comment within a comment was rejected or cut
S37 c4c0c2e ReduceString cut characters outside ASCII
S05 5ecfb2d Expires values from 2^31 to 2^32-1 were rejected
S05 6272460 stale=TRUE was taken for false
S38 0b21238 text after a complete Reply-To, Retry-After, Subscription-State, Accept or Timestamp value was dropped silently
S05 97fbc20 a Contact of * did not say that it is a wild card, and taking the flag back set it
S05 f87d0b0 Accept-Language and Accept-Encoding refused Q= for q=
S20 56671d6 a URI that was set again moved to the end of the authentication parameters
S20 910a25f SetParameterFromNameValue added another parameter of a name that was there already
S04 1e5332b a flag parameter of a tel URL was encoded with '=', which did not parse before a blank, as in a request line
S28 ae66a27 a copy of a From, To or Contact header shared its address with the original
S34 21f9d58 SetRequestLineDefaults of a request without a request line panicked
S28 ce3e69b a From header made of a To header (CloneTo), and the other way round, shared its address
S38 4a13176 a URI parameter without a name (`<sip:a@b;;x>`, `<sip:a@b;>`) was accepted
"""
d = json.load(open(F))
d['findings'] = [f for f in d['findings'] if f['status'] != 'fixed']
for l in L.strip().splitlines():
    p, c, w = l.split(' ', 2)
    d['findings'].append({'property': p, 'status': 'fixed', 'commit': c, 'what': f'fixed: property={p} {c} {w}'})
json.dump(d, open(F, 'w'), indent=1, ensure_ascii=False)
open(F, 'a').write('\n')
