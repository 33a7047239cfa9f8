#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (run by hand after editing)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))

# ---------------------------------------------------------------- SIP messages
p("C01", "Formatting then parsing a SIP message loses nothing",
  "Formatting any well-formed SIP request or response and parsing the result gives back an equal message: start line (method, request URI, version, status, reason phrase), every standard header field, every address, address parameter and Via hop in its order, every extension header in its order, and the body with its content type. Nothing is dropped, changed, duplicated, reordered or moved to another field; the only values that may appear are the documented defaults for fields left empty (SIP/2.0, Max-Forwards 70 in requests, INVITE, the standard reason phrase, SIP/2.0/UDP in a Via).",
  ["inputs"], "every message whose fields lie in the parser's own character sets: any subset of the ~45 header fields, lists of any length, any parameter list, any body",
  "The tests parse a dozen fixed messages and never format one of them; no test compares a formatted message with what it parses back to.",
  ["sip/msg.go", "sip/sip.rl", "sip/msg_parse.go", "sip/addr.go", "sip/via.go", "sip/param.go", "sip/xheader.go"],
  [("Msg.Append", "sip/msg.go"), ("ParseMsg", "sip/msg_parse.rl"), ("Addr.Append / Via.Append / Param.Append / XHeader.Append", "sip/")],
  ["Msg.String", "ParseMsg"])
p("C02", "Equivalent wire forms of a message parse the same",
  "Rewriting a SIP message without changing its meaning never changes what it parses to: header names in any letter case or as their RFC compact form (c e f i k l m o r s t u v a b), optional whitespace and folded lines around separators, comma-joined versus repeated Via, Route, Record-Route, Contact and identity headers, reordering of different headers, and needlessly quoted parameter values or display names. Each header name, long or compact, sets its own field and no other.",
  ["inputs"], "every message, under every combination of the rewrites at every place where they apply",
  "Unit tests contain a handful of hand-picked spellings (RFC 4475 torture messages); the combinations of header x spelling x position are unbounded.",
  ["sip/sip.rl", "sip/msg_parse.go"],
  [("header name machines aname/sname/cheader, LWS/SWS/HCOLON, via and addr machines, lastAddr", "sip/sip.rl")], ["ParseMsg"])
p("C03", "Anything the parser accepts survives being formatted",
  "For every byte string that the message parser accepts as a message with From, To and Via, formatting the parsed message gives bytes that the parser accepts again and that parse to an equal message (apart from white space that a folded line puts at the start of a value; session descriptions as far as C13 covers them), and formatting that second message gives the same bytes again. In particular text that was decoded from an escaped or quoted form never changes its meaning, truncates its field or splits a header when it is written back.",
  ["inputs"], "all accepted byte strings, reached by generation and by mutation of valid messages",
  "No unit test formats a parsed message; accepted inputs are infinite and the interesting ones are unusual bytes in escaped or quoted places.",
  ["sip/msg.go", "sip/quote.go", "sip/escape.go", "sip/sip.rl"],
  [("appendQuoted, appendEscaped, Msg.Append", "sip/")], ["ParseMsg", "Msg.String"])
p("C04", "Parsers are total, deterministic and leave their input alone",
  "For every byte string, parsing it as a SIP message, as a SIP URI or as a session description returns, without panicking or hanging, either a value or an error and never both or neither; the error formats without panicking, and a parse error of a message points at a line and column that exist in it. Parsing does not modify its input and gives the same result every time.",
  ["inputs"], "all byte strings: random, structured, truncated, spliced and mutated",
  "Tests use well under a hundred inputs, nearly all of them valid.",
  ["sip/msg_parse.go", "sip/uri_parse.go", "sdp/sdp.go", "sip/msgerror.go"],
  [("ParseMsg, ParseURI, sdp.Parse", "sip/, sdp/"), ("MsgParseError.Error, MsgIncompleteError.Error", "sip/msgerror.go")])
p("C05", "Message bodies are framed exactly by Content-Length",
  "A message whose positive Content-Length equals the number of bytes after the blank line parses with exactly those bytes as body, of the declared content type, whatever bytes they are; any positive Content-Length that differs from that number is rejected, and Content-Length 0 gives no body. A message cut anywhere before its blank line ends is reported as incomplete, and a formatted message always carries the exact length of its body.",
  ["inputs"], "all bodies (any bytes, including blank lines and text that looks like headers), all declared lengths, all cut points",
  "Unit tests contain a few fixed SDP bodies with correct lengths.",
  ["sip/msg_parse.rl", "sip/msg_parse.go", "sip/payload.go", "sip/msg.go"],
  [("Content-Length check after the header machine", "sip/msg_parse.rl"), ("Msg.Append payload part", "sip/msg.go")])
p("C06", "Numbers in messages are read exactly or rejected",
  "Every number in a SIP message or URI (CSeq, Content-Length, Expires, Max-Forwards, Min-Expires, Via and URI ports, SIP version, status code) is read as exactly its decimal value or the message is rejected; it never wraps around, saturates or mixes with the digits of another header, and when one of CSeq, Expires, Max-Forwards, Min-Expires or Content-Length is repeated the last one counts. All ports 0-65535, versions 0-255, status codes 100-999 and other numbers up to at least 2^31-1 are accepted.",
  ["inputs"], "all digit strings, of any length and with leading zeros, in every numeric position",
  "Unit tests contain only small, in-range numbers.",
  ["sip/sip.rl", "sip/msg_parse.go", "sip/uri_parse.rl", "sip/uri_parse.go"],
  [("numeric actions of the Ragel machines", "sip/sip.rl, sip/uri_parse.rl")])
p("C07", "URIs survive formatting and parsing, however they are spelled",
  "Formatting any SIP URI and parsing the text gives back an equal URI, whatever bytes its user, password, parameters and headers contain; the formatted text contains nothing but URI characters, of which it percent-encodes only those that need it. Percent-encoding any subset of the characters of those parts, and changing the letter case of scheme, host or hex digits, does not change the URI a text parses to.",
  ["inputs"], "all URI values with any bytes in the escapable parts, IPv4/IPv6/name hosts, any port, any number of parameters and headers; all ways of escaping them",
  "uri_test.go checks 14 fixed URIs.",
  ["sip/uri.go", "sip/uriparam.go", "sip/uriheader.go", "sip/escape.go", "sip/charsets.go", "sip/uri_parse.rl"],
  [("URI.Append, URIParam.Append, URIHeader.Append", "sip/"), ("ParseURI", "sip/uri_parse.rl")])
p("C08", "The URI parser implements the URI grammar, no more and no less",
  "A text parses as a URI exactly if it has the form scheme:[user[:password]@]host[:port](;name[=value])*[?name[=value](&name[=value])*] in the character sets of RFC 3261, and then yields exactly those parts: scheme and host in lower case, percent escapes decoded, brackets of an IPv6 host removed, and every parameter and header found by its name with the value that belongs to it. Any other text is an error.",
  ["inputs"], "all texts, compared with an independent reference parser",
  "uri_test.go checks 14 fixed URIs, all but two of them valid.",
  ["sip/uri_parse.rl", "sip/uri_parse.go"], [("uri machine", "sip/uri_parse.rl")])
p("C09", "Display names and parameter values cannot break out of their field",
  "For every display name, address parameter value and Via parameter value, of any bytes, an address or Via header formatted with it stays one header: it contains no line break except a folded line and parses to the same URI, the same parameter names and the same neighbours in the list. Text without control characters, including quotes, backslashes, spaces, commas, semicolons and UTF-8, comes back unchanged; text that cannot be represented is at most truncated. Quotation marks and escapes are added only where they are needed.",
  ["inputs"], "all byte strings in those positions, alone and in lists",
  "quote_test.go checks seven strings and never parses the result.",
  ["sip/quote.go", "sip/addr.go", "sip/param.go", "sip/charsets.go"],
  [("appendQuoted, appendQuotedValue, appendQuoteQuoted, appendSanitized", "sip/quote.go")])
p("C10", "Copies are equal to and independent of the original",
  "A copy of a message, address, Via or URI is equal to the original in every field, including display names, parameters, all list elements and the body. Changing any field of the copy, of its URIs, addresses or Vias, or prepending to its lists never changes the original, nor the other way around; reversing an address list or detaching a Via leaves its argument unchanged.",
  ["inputs", "histories"], "all messages and all sequences of edits to either side",
  "No unit test calls Copy, Reversed or Detach.",
  ["sip/msg.go", "sip/addr.go", "sip/via.go", "sip/uri.go"], [("Copy, Reversed, Detach", "sip/")])
p("C11", "Lookup, list and comparison helpers agree with plain lists",
  "Looking up a parameter, URI parameter, URI header or extension header by name, ignoring case, returns the most recently added entry of that name or nothing if there is none; length, last element and reversal of address lists and the last Via agree with a plain list. Host and port comparison of URIs uses the scheme's default port (5061 for sips, else 5060) when there is none; of Vias, the literal host and port; branch comparison is true only if both have an equal branch; and every one of these helpers accepts nil.",
  ["inputs"], "all lists of any length with duplicate and case-varied names, and all pairs of URIs and Vias",
  "The existing tests compare whole parse results and never call these helpers.",
  ["sip/param.go", "sip/uriparam.go", "sip/uriheader.go", "sip/xheader.go", "sip/addr.go", "sip/via.go", "sip/uri.go"],
  [("Get, Len, Last, Reversed, Or, CompareHostPort, CompareBranch, GetPort", "sip/")])
p("C12", "Responses mirror their request and carry the right phrase",
  "A response built for any request has the given status with that status's registered reason phrase (\"Unknown Status Code\" for codes that were never registered), and the Vias, From, To, Call-ID, CSeq number and method and Record-Route of the request, unchanged and in order; formatted and parsed by the peer it matches that request. Building it changes nothing in the request.",
  ["inputs"], "all requests and all status codes 100-699",
  "No unit test builds a response or looks at reason phrases.",
  ["dialog/messages.go", "sip/status.go"], [("NewResponse", "dialog/messages.go"), ("Phrase", "sip/status.go")])
# ---------------------------------------------------------------- SDP
p("C13", "Formatting then parsing a session description loses nothing",
  "Formatting any well-formed session description and parsing the text gives back an equal one: origin, connection address (IPv4 or IPv6), session name, time, audio and video ports, protocols and codecs with name, rate, parameter and fmtp in order, ptime, direction, and unrecognized attributes and lines in order. A second round trip gives the identical text.",
  ["inputs"], "all descriptions with audio, video or both, any codec list (payload types distinct), any attributes",
  "sdp_test.go checks seven fixed descriptions.",
  ["sdp/sdp.go", "sdp/media.go", "sdp/codec.go", "sdp/origin.go"], [("SDP.Append, Parse", "sdp/sdp.go")])
p("C14", "Session descriptions mean what their lines say",
  "A session description is accepted exactly if it starts with v=0, has valid o= and c= lines and a valid audio or video media line whose payload types are each described by an rtpmap or are IANA-assigned static ones; otherwise it is an error. The result has the first c= address, and per media the port, protocol and payload types in preference order, each with the name, rate, parameter and fmtp of its (first) rtpmap and fmtp lines or, without an rtpmap, of the IANA table, as well as the ptime, direction and every other attribute; unknown or malformed optional lines never change the rest.",
  ["inputs"], "all texts of valid, omitted, repeated, reordered and corrupted lines, compared with an independent reference reader",
  "sdp_test.go checks seven fixed descriptions, all of them valid.",
  ["sdp/sdp.go", "sdp/codecs.go"], [("Parse, parseMediaInfo, populateCodecs, parseRtpmapInfo, parseConnLine, parseOriginLine", "sdp/sdp.go"), ("StandardCodecs", "sdp/codecs.go")])
# ---------------------------------------------------------------- RTP
p("C15", "RTP headers are encoded and decoded bit-exactly",
  "Every RTP header is written as the 12 bytes of RFC 3550 (version 2, no extension, no CSRC) appended to the given bytes, and reading those bytes, with anything after them, gives the same header back. Reading fails exactly for input shorter than 12 bytes, a version other than 2 or an extension bit, and reading any other header yields each field at its bit position and leaves the input unchanged.",
  ["inputs"], "all header values and all byte strings",
  "rtp_test.go checks a single header in one direction.",
  ["rtp/rtp.go"], [("Header.Write, Header.Read", "rtp/rtp.go")])
p("C16", "Telephone events are encoded bit-exactly and map to digits one to one",
  "Every telephone event header with a volume up to 63 is written as the four bytes of RFC 2833 and read back equal, and reading any four bytes yields each field at its bit position. The digits 0-9 * # A-D ! map to events 0-16 and back, lower-case a-d like upper case, and every other character or event number is an error.",
  ["inputs"], "all event headers, all byte quadruples, all 256 characters and event numbers",
  "No unit test touches event headers or the digit maps.",
  ["rtp/rtp.go", "rtp/dtmf.go"], [("EventHeader.Write, EventHeader.Read", "rtp/rtp.go"), ("DtmfToChar, CharToDtmf", "rtp/dtmf.go")])
p("C17", "A media session sends one continuous RTP stream",
  "Over any sequence of audio frames, raw payloads and digits sent on a session, every packet carries the session's constant SSRC, sequence numbers increase by exactly one per packet (wrapping at 65536), and the timestamp of each audio or raw packet is that of the previous one plus the samples the previous one carried (wrapping at 2^32). Audio packets have payload type 0 and exactly 160 bytes, the mu-law encoding of each sample in order; raw packets have the given payload type and bytes; without a peer nothing is sent and nothing changes.",
  ["histories", "inputs"], "all interleavings of Send, SendRaw and SendDTMF, with arbitrary samples, payloads and initial header values, including wrap-around and peer changes",
  "session_test.go only opens a socket.",
  ["rtp/session.go"], [("Session.Send, Session.SendRaw, Session.SendDTMF", "rtp/session.go")], ["packets at the peer's UDP socket"])
p("C18", "A digit is sent as one well-formed telephone event",
  "Sending a digit emits packets of payload type 101 with its event code, all with the same timestamp, the marker bit on the first only, strictly consecutive sequence numbers, durations that never decrease and end at 400, and then the end bit on the last three packets and on no others, each with duration 400. Characters that are not digits are refused without sending anything or changing the session, and the next audio packet has no marker bit, also when the digit could not be sent, which the caller is told.",
  ["inputs", "histories"], "all 256 characters, at any point of a stream",
  "No test sends a digit.",
  ["rtp/session.go"], [("Session.SendDTMF, dtmfCodes", "rtp/session.go")], ["packets at the peer's UDP socket"])
p("C19", "Received audio frames are delivered once, in order and intact",
  "Every valid RTP packet of payload type 0 with 160 payload bytes that a session receives is delivered as one frame holding the decoded samples, in order of arrival, and every other datagram (wrong version, extension bit, other payload type, any other length) is ignored without disturbing later ones. A delivered frame does not change until it is handed back, and closing the session, at any point of such a history with no frame outstanding or after its socket failed, which is reported once, returns and ends its channels.",
  ["histories", "inputs", "schedules"], "all interleavings of valid packets, garbage and close",
  "session_test.go never receives a packet.",
  ["rtp/session.go"], [("receiver, Session.Close", "rtp/session.go")])
p("C20", "Media sockets are opened on even ports in the RTP range",
  "Opening a media session or media socket on a host binds a UDP socket on that host to an even port from 16384 to 32768, also when many such sockets are already open, and distinct open sockets have distinct ports. A host given together with a port is bound to exactly that address; an address of somebody else gives an error. Sessions choose SSRCs of their own.",
  ["histories", "configurations"], "many sockets, opened and closed in any order",
  "session_test.go opens one socket.",
  ["rtp/session.go"], [("Listen", "rtp/session.go")])
# ---------------------------------------------------------------- DSP
p("C21", "Mu-law coding agrees with G.711",
  "Decoding each of the 256 mu-law bytes gives the G.711 value, and encoding any sample, of 16 bits or more, gives the code byte of the segment and step that contains it, saturating beyond the loudest code. Hence encoding is monotonic, decoding then encoding gives back an equivalent code, and encoding then decoding a 16-bit sample is off by no more than the step size of its segment.",
  ["inputs"], "all 256 codes, all 65536 samples, and 64-bit samples beyond",
  "dsp_test.go checks the decode table and re-encodes just those values.",
  ["dsp/dsp_amd64.s", "dsp/dsp.go"], [("LinearToUlaw, UlawToLinear", "dsp/dsp_amd64.s")])
p("C22", "Mixing frames saturates and touches nothing else",
  "Mixing a 160-sample frame into another replaces each sample of the destination by the sum of the two, clamped to the 16-bit range. The source, and all memory outside the 160 destination samples, is left unchanged, wherever the two frames lie in memory, including when they are the same frame.",
  ["inputs"], "all sample values, all alignments of either frame",
  "dsp_test.go mixes one pair of small frames at one alignment.",
  ["dsp/dsp_amd64.s"], [("L16MixSat160", "dsp/dsp_amd64.s")])
p("C23", "The noise generator gives white Gaussian noise at the requested level",
  "For every seed and level the generator produces samples that depend on nothing else, so equal seeds and levels give equal streams, different seeds (of its 259200) different ones, and independent generators do not affect each other. The noise has zero mean and the requested RMS level (relative to full scale, with 6.16 dB between the two level scales), a Gaussian distribution and no correlation between samples, and at levels too loud for 16 bits it clips at the limits and never wraps.",
  ["inputs"], "all seeds, including the extremes of the integer range, and all levels",
  "awgn_test.go checks a few samples of one seed at one level.",
  ["dsp/awgn.go"], [("NewAWGN, NewAWGN_DBM0, NewAWGN_DBOV, Get", "dsp/awgn.go")])
# ---------------------------------------------------------------- dialog: messages and routing
p("C24", "Outgoing requests are completed, never overwritten",
  "Completing any request before it is sent fills in exactly what is missing: Via, Contact, To, From, Call-ID, CSeq and its method, Max-Forwards 70, User-Agent, a branch starting with z9hG4bK on the top Via and a tag on From; everything that was already set keeps its value. Responses are left untouched, messages completed one after another never share a generated branch, tag or Call-ID, and the transport's own Via and Contact are not changed.",
  ["inputs", "histories"], "all subsets of preset fields, and any sequence of messages through one transport",
  "The dialog package has no unit tests.",
  ["dialog/route.go", "util/util.go"], [("PopulateMessage", "dialog/route.go")])
p("C25", "Messages go to the hop that SIP routing says",
  "A request is routed to its topmost Route if that has the lr parameter, with Request-URI and Routes unchanged; to a strict router, its URI becomes the Request-URI and the old Request-URI is appended as the last Route; without Route it goes to the Request-URI; and in each case a topmost Route equal to our own contact is removed first, and a REGISTER with a Route is refused. A response goes to the topmost Via that is not our own, at its received address and rport port if present, and to an error rather than elsewhere if there is no such Via or rport is not a port number.",
  ["inputs"], "all combinations of routes, Vias, parameters, own addresses and default ports",
  "The dialog package has no unit tests.",
  ["dialog/route.go"], [("RouteMessage", "dialog/route.go")])
p("C26", "Hosts resolve to addresses in SRV order with the right default port",
  "Resolving an IP address gives that address with the given port, or 5060 if none; resolving a host name with a port, or when SRV is not wanted, gives its address with that port or 5060. Resolving a host name without a port when SRV is wanted gives all its _sip._udp SRV targets with their ports in priority order, or, if there are none, the host's address with port 5060; a host that cannot be resolved is an error.",
  ["inputs", "configurations"], "all IP hosts and ports; all SRV record sets and failing lookups served by a scripted resolver",
  "The dialog package has no unit tests and the sandbox has no DNS.",
  ["dialog/route.go"], [("RouteAddress", "dialog/route.go")])
p("C27", "ACK, CANCEL and BYE name the transaction and dialog they belong to",
  "An ACK has the Call-ID, From, To, CSeq number and topmost Via of the response it acknowledges; for a 2xx it goes to the response's Contact through its Record-Route reversed, otherwise it repeats the request URI and Route of the INVITE, and in both cases its credentials. A CANCEL repeats the INVITE's request URI, Vias including the branch, From, To, Call-ID, CSeq number and Route. A BYE goes to the remote Contact through its Record-Route reversed, with the INVITE's From and Call-ID, the remote's To, and a CSeq one higher than any before; building any of them, or a new request, leaves its arguments unchanged, and a new request has fresh branch, tag and Call-ID.",
  ["inputs", "histories"], "all INVITEs, responses, route sets and sequences of such requests",
  "The dialog package has no unit tests.",
  ["dialog/messages.go"], [("NewRequest, NewAck, NewCancel, NewBye", "dialog/messages.go")])
p("C28", "Responses and ACKs match only the transaction they belong to",
  "A response matches a request exactly if it is a response whose CSeq number and method are the request's and whose last Via has the same host, port and branch; an ACK matches exactly if it is an ACK request with the same CSeq number and the same last Via host and port. The response that a peer builds from the request matches after travelling over the wire, and changing any one of those fields makes it not match.",
  ["inputs"], "all pairs of messages, in particular pairs that differ in one field",
  "The dialog package has no unit tests.",
  ["dialog/messages.go", "sip/via.go"], [("ResponseMatch, AckMatch", "dialog/messages.go")])
# ---------------------------------------------------------------- dialog: transport
p("C29", "The transport records where requests came from and removes its own route",
  "Each message a transport receives is delivered once, in order and equal to what was sent, except that a request whose topmost Via names another port than it came from gains an rport with the real port (if it has no rport value yet) and one that names another host gains a received with the real address (if it has none yet); responses gain neither. A topmost Route naming the transport itself is removed, and a request from a strict router, with our own lr URI as Request-URI, gets its last Route back as Request-URI.",
  ["inputs", "histories"], "all message sequences from any source address, over loopback",
  "The dialog package has no unit tests.",
  ["dialog/receiver.go", "dialog/transport.go"], [("ReceiveMessages, addReceived, fixMessagesFromStrictRouters", "dialog/receiver.go")])
p("C30", "A transport survives any datagram and keeps messages apart",
  "Datagrams that are not SIP messages, of any bytes or length, including messages without Via, are dropped without ending the transport, delaying or altering the messages around them. A delivered message, its headers and its body never change because of anything received later, and closing the socket reports one error and ends both channels.",
  ["histories", "inputs", "fault_sequences"], "all interleavings of valid messages, mutated messages and random datagrams",
  "The dialog package has no unit tests.",
  ["dialog/receiver.go"], [("ReceiveMessages", "dialog/receiver.go")])
p("C31", "Sending completes, addresses and transmits each message once",
  "Sending a request or response through a transport emits exactly one datagram to the address that routing chooses, port 5060 if it names none, that parses to the message given, completed, with Max-Forwards one lower. A response to a received request reaches the address that request came from, and an unroutable message, or a request whose Max-Forwards is used up, is an error and emits nothing. A transport on an address that is taken or not ours is an error.",
  ["inputs", "histories"], "all messages, destinations on loopback, and request/response exchanges between transports",
  "The dialog package has no unit tests.",
  ["dialog/transport.go", "dialog/route.go"], [("Transport.Send", "dialog/transport.go")])
# ---------------------------------------------------------------- dialog: calls
p("C32", "Call progress is reported faithfully",
  "For every sequence of responses to its INVITE, a call reports Proceeding for 100, Ringing for 180 and 183, Answered exactly once for the 200, and the audio address of every session description in a response up to 200 that has one; once answered it never goes back to an earlier state. Responses of another transaction, branch or CSeq are ignored; a final error response, or a 2xx without Contact, is reported as an error and ends the call.",
  ["histories", "schedules"], "all scripts of provisional, final, repeated, late and mismatched responses sent by a scripted peer",
  "The dialog package has no unit tests; the example tests need a live SIP server and make one call.",
  ["dialog/dialog.go"], [("handleResponse, checkSDP, transition", "dialog/dialog.go")], ["Dialog.OnState, OnPeer, OnErr", "packets at the peer"])
p("C33", "Every final response to an INVITE is acknowledged",
  "Each time a call receives a final response that matches its INVITE, also a repeated one while the call is up, it sends an ACK with that response's Call-ID, CSeq number, To tag and branch, to the right URI and route. It never acknowledges provisional or mismatched responses or responses to other methods.",
  ["histories"], "all scripts of final responses of every class, with and without Contact and Record-Route, repeated any number of times",
  "The dialog package has no unit tests.",
  ["dialog/dialog.go", "dialog/messages.go"], [("handleResponse, NewAck", "dialog/dialog.go")], ["packets at the peer"])
p("C34", "Calls fail over to the next address",
  "When an address of the destination does not answer within the configured number of retransmissions, refuses by ICMP, or answers 503 (also after 100), the INVITE is sent to the next SRV address in order, with a new branch and the same Call-ID, From tag and CSeq; only when no address is left does the call report an error and end. A redirect (301, 302) with a Contact sends the INVITE to that Contact, and any response past 100 other than 503 ends the failover. Each INVITE gives, in Via, Contact and SDP, our address on the interface it is sent from, where the caller gave none.",
  ["fault_sequences", "histories"], "all assignments of behaviours (silent, refusing, 503, 100 then 503, redirecting, answering) to a list of SRV targets",
  "No test has more than one destination or a failing one.",
  ["dialog/dialog.go", "dialog/route.go", "util/util.go"], [("popRoute, connect, resendRequest, IsRefused, handleResponse", "dialog/dialog.go")])
p("C35", "Hanging up ends the call properly at any time",
  "Hanging up an answered call sends a BYE to the remote target (the latest Contact, through the recorded route) with a CSeq higher than the INVITE's, and its 200 ends the call in state Hangup; hanging up an unanswered one sends a CANCEL matching the INVITE, and its 487, or whatever error or redirect arrives instead, is acknowledged and ends the call, which sends no new INVITE. A BYE from the peer is answered 200 and ends the call in state Hangup, and whenever a call ends, for whatever reason, its error, state and peer channels are closed and its sockets released.",
  ["histories", "schedules"], "hangup by either side in every state and after every script of earlier events, including re-INVITEs and failovers",
  "The example tests hang up one call one way, and need a live server.",
  ["dialog/dialog.go", "dialog/messages.go"], [("sendHangup, handleRequest, cleanup, drain", "dialog/dialog.go")])
p("C36", "Requests within a call are answered correctly",
  "Within a call, each request of its Call-ID is answered exactly once and in order: OPTIONS and BYE with 200, a re-INVITE with 200 and its audio address is reported, other methods but ACK with 405 (whose Allow names the others), and a request with a CSeq lower than one seen before with 500; requests of another Call-ID with 481; one of another SIP version gets 505 and ends the call with an error. Each answer repeats the request's Vias, From, To, Call-ID and CSeq (that to an INVITE its Record-Routes too), and ACKs and responses are never answered. A call listens to its next hop alone, unless loose signalling is on: messages from any other address have no effect.",
  ["histories"], "all sequences of requests, with increasing, repeated and decreasing CSeq, before and after the call is answered",
  "The dialog package has no unit tests.",
  ["dialog/dialog.go"], [("handleMessage, handleRequest", "dialog/dialog.go")], ["packets at the peer"])
p("C37", "Retransmission is persistent, bounded and stops in time",
  "An unanswered INVITE or BYE is sent again unchanged in branch, CSeq and content at the configured interval, at most the configured number of times, and then given up; after any matching response to it no more copies are sent. The 200 to a re-INVITE is likewise repeated until it is acknowledged, and never after. A call that gives up ends with an error.",
  ["schedules", "fault_sequences"], "all configured intervals and counts, and every point at which the peer starts answering",
  "The dialog package has no unit tests.",
  ["dialog/dialog.go"], [("resendRequest, resendResponse, requestTimer, responseTimer", "dialog/dialog.go")], ["packets at the peer"])
p("C38", "No datagram can crash or wedge a call",
  "Whatever datagrams arrive at a call at any moment, valid, mutated or random, matching or not, the process does not panic and the call either stays responsive, still answering in-dialog OPTIONS and obeying hangup, or ends with its channels closed. Datagrams that are not SIP messages have no effect at all.",
  ["histories", "inputs"], "all sequences of arbitrary and mutated in-dialog messages in every state of a call",
  "The dialog package has no unit tests.",
  ["dialog/dialog.go", "dialog/receiver.go"], [("handleMessage, checkSDP, ReceiveMessages", "dialog/")])
p("C39", "Generated identifiers are well-formed and unique",
  "Generated tags are 12 hex digits, branches are z9hG4bK- followed by such a tag, Call-IDs are version 4 UUIDs in form, CSeq numbers lie in [1,50000) and session ids in [0,2^32), each in characters that survive formatting and parsing. Tags, branches and Call-IDs never repeat, also when generated concurrently, and all their random digits vary over their whole range.",
  ["histories", "schedules"], "large numbers of identifiers generated from many goroutines",
  "No unit test looks at an identifier.",
  ["util/util.go"], [("GenerateTag, GenerateBranch, GenerateCallID, GenerateCSeq, GenerateOriginID", "util/util.go")])

p("C40", "What is independent may be used at the same time",
  "Parsing, formatting, copying, looking things up, comparing, building requests and responses, routing, codecs, mixing and generating identifiers give the same results when many goroutines do them at once as one after the other, and none of those that read a message, session description or frame changes it, so that goroutines may share it without a data race; a copy of a message may be changed, completed, sent or called with while others use the original and other copies. Calls, transports and sessions do not disturb each other: calls made at the same time from copies of one INVITE each have their own branch, Call-ID and tag, and each reports what it would report alone; several goroutines may send through one transport, and a session may send and receive at once.",
  ["schedules", "histories", "inputs"], "all interleavings of operations on shared read-only objects and on independent copies, and of several calls, transports and sessions in a process",
  "The unit tests run one thing at a time and without the race detector.",
  ["sip/msg.go", "sip/via.go", "sip/addr.go", "sdp/sdp.go", "dialog/dialog.go", "dialog/messages.go", "dialog/route.go", "dialog/transport.go", "rtp/session.go", "util/util.go"],
  [("Copy, Append, PopulateMessage, RouteMessage", "sip/, dialog/"), ("populate, popRoute", "dialog/dialog.go"), ("Send, receiver", "rtp/session.go")])
p("C41", "Watching the signalling does not disturb it",
  "With -trace every datagram that a transport or call sends or receives, also one that is no message, is logged exactly once, byte for byte, with its direction, length and the other side's address, and without it none is. With -timestampTagging each message sent or received has in its topmost Via a usi parameter with the time in microseconds. Apart from that, what is sent, delivered, reported and answered is the same with either option as without.",
  ["histories", "inputs"], "all messages, junk and call histories, with every combination of the options",
  "No test turns the options on.",
  ["dialog/trace.go", "dialog/receiver.go", "dialog/transport.go", "dialog/dialog.go"], [("trace", "dialog/trace.go"), ("addTimestamp, ReceiveMessages", "dialog/receiver.go"), ("transmit", "dialog/dialog.go")], ["log output", "packets at the peer"])

p("C42", "A call carries its audio both ways",
  "In a call with a media session whose port its session description announces, and whose peer is set to what the call reports, every frame, digit and payload that is sent goes to the audio address announced last by the peer, in a response up to 200 or a re-INVITE, as one RTP stream across all changes of that address. Every audio packet sent to the address and port that the INVITE announces is delivered once, in order and intact, at any time before, in and after the call until the session is closed, which then frees its port.",
  ["histories", "inputs"], "all histories of a call with a session, with every mix of signalling and media",
  "The tests that use a call with a session need the network.",
  ["dialog/dialog.go", "rtp/session.go", "sdp/sdp.go"], [("checkSDP, populate", "dialog/dialog.go"), ("Session.Send, receiver", "rtp/session.go")], ["packets at the peer", "frames delivered"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x, ensure_ascii=True) + "\n")
    print(len(P))
