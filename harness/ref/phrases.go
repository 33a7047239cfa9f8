package ref

// Phrases has the reason phrases of RFC 3261, 3265, 3312, 3323, 3329, 3608,
// 3892, 3903, 3911, 4028, 4412, 4474, 4916, 5079, 5360, 5393, 5626, 5839 by status.
var Phrases = map[int]string{
	100: "Trying", 180: "Ringing", 181: "Call Is Being Forwarded", 182: "Queued", 183: "Session Progress",
	200: "OK", 202: "Accepted", 204: "No Notification",
	300: "Multiple Choices", 301: "Moved Permanently", 302: "Moved Temporarily", 305: "Use Proxy", 380: "Alternative Service",
	400: "Bad Request", 401: "Unauthorized", 402: "Payment Required", 403: "Forbidden", 404: "Not Found", 405: "Method Not Allowed",
	406: "Not Acceptable", 407: "Proxy Authentication Required", 408: "Request Timeout", 410: "Gone",
	412: "Conditional Request Failed", 413: "Request Entity Too Large", 414: "Request-URI Too Long", 415: "Unsupported Media Type",
	416: "Unsupported URI Scheme", 417: "Unknown Resource-Priority", 420: "Bad Extension", 421: "Extension Required",
	422: "Session Interval Too Small", 423: "Interval Too Brief", 428: "Use Identity Header", 429: "Provide Referrer Identity",
	430: "Flow Failed", 433: "Anonymity Disallowed", 436: "Bad Identity-Info", 437: "Unsupported Certificate",
	438: "Invalid Identity Header", 439: "First Hop Lacks Outbound Support", 440: "Max-Breadth Exceeded", 470: "Consent Needed",
	480: "Temporarily Unavailable", 481: "Call/Transaction Does Not Exist", 482: "Loop Detected", 483: "Too Many Hops",
	484: "Address Incomplete", 485: "Ambiguous", 486: "Busy Here", 487: "Request Terminated", 488: "Not Acceptable Here",
	489: "Bad Event", 491: "Request Pending", 493: "Undecipherable", 494: "Security Agreement Required",
	500: "Server Internal Error", 501: "Not Implemented", 502: "Bad Gateway", 503: "Service Unavailable", 504: "Server Time-out",
	505: "Version Not Supported", 513: "Message Too Large", 580: "Precondition Failure",
	600: "Busy Everywhere", 603: "Decline", 604: "Does Not Exist Anywhere", 606: "Not Acceptable",
}

// Unregistered tells if a status code has never been registered. The few that
// have been registered but are not above are unspecified.
func Unregistered(status int) bool {
	if _, ok := Phrases[status]; ok {
		return false
	}
	switch status {
	case 199, 409, 411, 424, 425, 469, 555, 607, 608, 687:
		return false
	}
	return true
}
