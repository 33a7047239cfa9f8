"""The checks: which package decides which property, and how it is run."""

PURE = dict(shards=8, procs=2, timeout=600, thorough_timeout=4 * 3600)


def pure(pkg, *assumptions, **kw):
    return dict(PURE, pkg=pkg, assumptions=list(assumptions), **kw)


CHECKS = {
    "C01": pure("sipcheck", "Field values are drawn from the parser's own character sets (harness/gen); session descriptions in bodies are those of C13."),
    "C02": pure("sipcheck", "The renderer in harness/gen/wire.go only applies rewrites that RFC 3261 section 7.3 calls equivalent."),
    "C03": pure("sipcheck", "Messages whose session description was itself mutated are compared without it."),
    "C04": pure("sipcheck", "A case that burns more than a minute of CPU counts as a hang."),
    "C05": pure("sipcheck"),
    "C06": pure("sipcheck"),
    "C07": pure("sipcheck"),
    "C08": pure("sipcheck", "harness/ref/uri.go is the reference reading of the grammar."),
    "C09": pure("sipcheck"),
    "C10": pure("sipcheck", "Params and extension headers are shared between copies by design and never edited in place."),
    "C11": pure("sipcheck"),
    "C12": pure("sipcheck", "harness/ref/phrases.go is the table of registered reason phrases."),
    "C13": pure("sdpcheck", "Payload types are distinct in a description; field texts contain no line breaks."),
    "C14": pure("sdpcheck", "harness/ref/sdp.go is the reference reader; it leaves open what repeated m=, o=, s= and t= lines, payload types above 127 and numbers with signs or leading zeros mean."),
    "C15": pure("rtpcheck", "Payload types are at most 127, the range of the field."),
    "C16": pure("rtpcheck"),
    "C17": pure("rtpcheck", "The loopback interface delivers what is sent in order; a datagram it loses is reported as no answer."),
    "C18": pure("rtpcheck", "As C17; the timestamp of a digit is that of the next audio packet."),
    "C19": pure("rtpcheck", "As C17; anything that has to happen may take 30 seconds."),
    "C20": pure("rtpcheck", "Hosts in 127.0.0.0/8 are local; a few of very many openings may fail on a crowded host, as only ten ports are tried."),
    "C21": pure("dspcheck", "harness/ref/ulaw.go is G.711 on the 16-bit scale."),
    "C22": pure("dspcheck", "Frames that partly overlap are not considered."),
    "C23": pure("dspcheck", "Statistical bounds of 7.5 standard errors; all 259200 streams of the generator were found to be within them."),
    "C24": pure("dlgcheck", "Where generated parameters are put in their lists is left open."),
    "C25": pure("dlgcheck", "What becomes of a second own Via or Route in a row, of an rport of 0 or with leading zeros, and of an empty received is left open."),
    "C26": pure("dlgcheck", "Names are resolved by the net package against a name server in the process; which of several addresses of a host is used is left open."),
    "C27": pure("dlgcheck"),
    "C28": pure("dlgcheck", "A Via has at most one branch, and a request of ours one Via."),
    "C29": pure("dlgcheck", "The loopback interface delivers what is sent; three bursts in a row have to be out of order to count."),
    "C30": pure("dlgcheck", "The parser, decided by C01 to C09, says which datagrams are messages, besides those that surely are not."),
    "C31": pure("dlgcheck", "As C26 and C29; a datagram that the loopback interface loses is reported as no answer."),
    "C32": pure("dlgcheck", "As C26 and C29; a datagram that the loopback interface loses is reported as no answer.", "What a call reports after an error final response that follows its 200 is left open, as is whether a 200 without Contact is acknowledged."),
    "C33": pure("dlgcheck", "As C32."),
    "C34": pure("dlgcheck", "As C32; a plan has to fail three times, the last time with intervals of 0.6 seconds, to count.", "Nobody listens on port 9 of 127.9.0.0/16."),
    "C35": pure("dlgcheck", "As C32; nobody hangs up before a provisional response."),
    "C36": pure("dlgcheck", "As C32; requests have a Max-Forwards above 0."),
    "C37": pure("dlgcheck", "As C32; a call has to fail three times, at longer and longer intervals, to count."),
    "C38": pure("dlgcheck", "Calls that were told to talk to addresses other than the peer's are not followed."),
    "C39": pure("dlgcheck", "Identifiers are drawn at random: 48 bits do not repeat by accident among 60000, but for a chance below 0.0001 in a run."),
    "C40": pure("conccheck", "The race detector sees the accesses of Go code, not of assembly.", "As C29; retransmission is off.", build=("-race",), procs=4),
    "C41": pure("dlgcheck", "As C29; the clock is not set by more than ten seconds during a case. Time stamps pile up when a message is sent again, which is left open."),
    "C42": pure("dlgcheck", "As C32; the interfaces of IPv4 and IPv6 loopback stand for all."),
}

# How many times the budgets in the tests the quick check runs.
for k, n in dict(C02=2, C04=2, C05=2, C06=6, C07=4, C08=3, C09=3, C11=5, C12=2, C13=6, C14=8, C15=3, C17=4, C18=8, C19=3, C20=6, C21=6, C22=8, C24=2, C25=3, C26=15, C28=2, C29=3, C30=4, C31=6, C32=3, C33=2, C36=2, C39=4, C40=2, C41=4, C42=2).items():
    CHECKS[k]["scale"] = n

# The coverage-guided searches of the thorough tier, and their seconds.
for k, n in dict(C03="FuzzC03Msg", C08="FuzzC08URI", C14="FuzzC14SDP").items():
    CHECKS[k]["fuzz"] = (n, 1200)
