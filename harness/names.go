package main

import (
	"fmt"
	"sort"
	"strings"
)

// A run over names adds one line, component or parameter of each name that is
// unknown where it stands, one at a time.

// registered are property names of the registry and of common products.
var registered = strings.Fields(`ACCEPT-RESPONSE ACKNOWLEDGED ACTION ALARM-AGENT ATTACH ATTENDEE BUSYTYPE CALENDAR-ADDRESS CALID CALMASTER CALSCALE
CAP-VERSION CARID CATEGORIES CLASS CMD COLOR COMMENT COMPLETED COMPONENTS CONCEPT CONFERENCE CONTACT CREATED CSID DALARM DECREED DEFAULT-ALARM
DEFAULT-CHARSET DEFAULT-LOCALE DEFAULT-TZID DEFAULT-VCARS DENY DESCRIPTION DTEND DTSTAMP DTSTART DUE DURATION ESTIMATED-DURATION EXDATE EXPAND
EXRULE FREEBUSY GEO GRANT IMAGE ITIP-VERSION LANGUAGE LAST-MOD LAST-MODIFIED LINK LOCATION LOCATION-TYPE MAXDATE MAX-COMP-SIZE MAXRESULTS
MAXRESULTSSIZE METHOD MINDATE MULTIPART MALARM NAME ORGANIZER OWNER PALARM PARTICIPANT-TYPE PERCENT-COMPLETE PERMISSION POLL-COMPLETION
POLL-ITEM-ID POLL-MODE POLL-PROPERTIES POLL-WINNER PRIORITY PRODID PROXIMITY QUERY QUERYID QUERY-LEVEL QUERY-NAME RDATE RECUR-ACCEPTED
RECUR-EXPAND RECUR-LIMIT RECURRENCE-ID REFID REFRESH-INTERVAL RELATED-TO RELCALID REPEAT REPLY-URL REQUEST-STATUS RESOURCES RESOURCE-TYPE
RESPONSE RESTRICTION RNUM RRULE SCOPE SEQUENCE SOURCE STATUS STORES-EXPANDED STRUCTURED-DATA STYLED-DESCRIPTION SUMMARY TARGET TASK-MODE
TRANSACTION-ID TRANSP TRIGGER TZ TZID TZID-ALIAS-OF TZNAME TZOFFSETFROM TZOFFSETTO TZUNTIL TZURL UID UNTIL URL VERSION VOTER XML
X-ALT-DESC X-APPLE-CALENDAR-COLOR X-APPLE-DEFAULT-ALARM X-APPLE-STRUCTURED-LOCATION X-APPLE-TRAVEL-DURATION X-APPLE-UNIVERSAL-ID
X-CALEND X-CALSTART X-CLIPEND X-EVOLUTION-ALARM-UID X-FUNAMBOL-ALLDAY X-GOOGLE-CALENDAR-CONTENT-TITLE X-GOOGLE-CONFERENCE X-IRMC-LUID X-LIC-ERROR
X-LIC-LOCATION X-MICROSOFT-CDO-ALLDAYEVENT X-MICROSOFT-CDO-BUSYSTATUS X-MICROSOFT-CDO-IMPORTANCE X-MICROSOFT-CDO-INTENDEDSTATUS
X-MICROSOFT-DISALLOW-COUNTER X-MOZ-GENERATION X-MOZ-LASTACK X-MOZ-SNOOZE-TIME X-MS-OLK-FORCEINSPECTOROPEN X-OWNER X-PRIMARY-CALENDAR
X-PUBLISHED-TTL X-RADICALE-NAME X-RECURRENCE-ID X-TINE20-CONTAINER X-TITLE X-WP-IMAGES-URL X-WR-ALARMUID X-WR-CALDESC X-WR-CALNAME X-WR-RELCALID
X-WR-TIMEZONE X-YAHOO-YID
ABSTRACT ADR AGENT ALARM ALARMS ATTACHMENT ATTACHMENTS ATTENDEES AUDIO BDAY BY CATEGORY CALENDAR CHANGED CLASSIFICATION COMMENTS COMPLETE CONTACTS
COORDINATES COUNT CREATED-AT DATE DATE-TIME DAYLIGHT DELETED DESC DETAIL DISPLAY DTCOMPLETED DTDUE DTMODIFIED DURATION-TIME EMAIL ENDS END-DATE
EXCEPTION EXDATES EXTENSION FN FREQ GEOLOCATION HOST ID INTERVAL KEY KIND LABEL LASTMODIFIED LAST-MODIFIED-BY LOC LOGO MODIFIED N NICKNAME NOTE
NOTES ORG ORGANISER ORGANIZATION PARTICIPANT PERCENT PERCENTCOMPLETE PERIOD PHOTO PLACE PRIO PRIVACY PUBLISH-TTL RDATES RECUR RECURRENCE
RECURRENCEID RECURRENCE-RULE RELATED RELATEDTO REMINDER REPEATS REQUESTSTATUS RESOURCE REV REVISION ROLE ROOM RULE RSTATUS SENT-BY SEQ SORT-STRING
SOUND STANDARD START START-DATE STARTS STATE SUBJECT TAGS TEL TEXT TIME TIMESTAMP TIMEZONE TITLE TODO TRANSPARENCY TRANSPARENT TYPE TZ-OFFSET
TZOFFSET TZOFFSETFROMTO UPDATED URI URLS USER UUID VALARM VALUE VCALENDAR VEVENT VJOURNAL VTIMEZONE VTODO WHERE XNAME XPROP X-COMPONENT`)

var otherComps = strings.Fields(`VPOLL VOTE VVOTER VAVAILABILITY AVAILABLE PARTICIPANT VLOCATION VRESOURCE VCARD VAGENDA VCAR VCOMMAND VQUERY VREPLY
VNOTE VNOTIFICATION VREMINDER VTASK VMEMO VCONTACT ALARM EVENT TODO JOURNAL FREEBUSY TIMEZONE CALENDAR STANDARD DAYLIGHT VSTANDARD VDAYLIGHT
VALARM VEVENT VTODO VJOURNAL VFREEBUSY VTIMEZONE X-VALARM X-VCALENDAR VALARMS VEVENTS IANA-COMP X-COMP X- X 1 - BEGIN END VERSION`)

var otherParams = strings.Fields(`CHARSET CONTEXT DEFAULT DERIVED DISPLAY EMAIL ENC FEATURE FILENAME FMT GAP ID IANA-PARAM LABEL LANG LINKREL LOCAL
MANAGED-ID NAME OPTIONS ORDER PARTICIPATION PREF PUBLIC-COMMENT PWD REASON REL REPLY-URL REQUIRED RESPONSE SCHEDULE-AGENT SCHEDULE-FORCE-SEND
SCHEDULE-STATUS SCHEMA SIZE SORT-AS STATUS STAY-INFORMED TYPE TZ UID UNTIL UTF8 VERSION X X- X-ADDRESS X-APPLE-MAPKIT-HANDLE X-APPLE-RADIUS X-BUSYMAC-LASTMODBY
X-FILENAME X-GUESTS X-NUM-GUESTS X-PARAM X-SOURCE X-SYNC-TOKEN X-TITLE X-TYPE X-TZID X-VALUE X-VOBJ-ORIGINAL-TZID XVALUE XTZID VAL VALUES TZIDS TZ-ID
ENCODINGS CONTENT-TYPE MIMETYPE COMMON-NAME LANGUAGES ROLES ALT ALTERNATE BUSY BUSYTYPE FREEBUSY DELEGATED DELEGATE SENTBY SENT PARTICIPATION-STATUS`)

// twists lists names close to another.
func twists(n string) []string {
	out := []string{n + "X", "X-" + n, "X" + n, n + "-" + n, n + "-", "-" + n, n + "S", n + "1", n[1:], n[:len(n)-1], "V" + n, strings.ReplaceAll(n, "-", "")}
	for i := range n {
		out = append(out, n[:i]+"0"+n[i:], n[:i]+"-"+n[i:], n[:i]+"Q"+n[i+1:], n[:i]+n[i:i+1]+n[i:])
		if i > 0 {
			out = append(out, n[:i-1]+n[i:i+1]+n[i-1:i]+n[i+1:])
		}
	}
	return out
}

// strange lists the names that are none of the known ones, once each.
func strange(known map[string]bool, lists ...[]string) []string {
	seen := map[string]bool{"": true}
	var out []string
	for _, l := range lists {
		for _, n := range l {
			if !known[n] && !seen[n] {
				seen[n] = true
				out = append(out, n)
			}
		}
	}
	return out
}

// strangeProps lists property names that mean nothing in the component.
func strangeProps(comp string) []string {
	known := map[string]bool{"BEGIN": true, "END": true}
	if isAlarm(comp) {
		known["ACTION"] = true
	}
	near := twists("BEGIN")
	near = append(near, twists("END")...)
	near = append(near, twists("ACTION")...)
	for _, u := range compDefs[comp].Props {
		known[u.Name] = true
		near = append(near, twists(u.Name)...)
	}
	return strange(known, registered, near)
}

// strangeComps lists component names that mean nothing in the component.
func strangeComps(comp string) []string {
	known := map[string]bool{}
	var near []string
	for _, c := range compList {
		n, _, _ := strings.Cut(c.Name, ":")
		near = append(near, twists(n)...)
	}
	for _, n := range compDefs[comp].Subs {
		known[n] = true
	}
	return strange(known, otherComps, near)
}

// strangeParams lists parameter names that mean nothing to the property.
func strangeParams(p pair) []string {
	known := map[string]bool{"VALUE": true, "TZID": true, "ENCODING": true}
	all := map[string]bool{"VALUE": true, "TZID": true, "ENCODING": true}
	for n := range paramDefs {
		all[n] = true
	}
	for _, n := range defOf(p.Comp, p.Prop).Params {
		known[n] = true
	}
	names := sortedKeys(all)
	var near []string
	for _, n := range names {
		near = append(near, twists(n)...)
	}
	return strange(known, otherParams, names, near)
}

func nameSites() []string {
	var out []string
	for _, c := range compList {
		out = append(out, c.Name+"/|property|names")
		if !isAlarm(c.Name) {
			out = append(out, c.Name+"/|component|names")
		}
	}
	for _, s := range pairStrings() {
		if !strings.HasSuffix(s, "/") {
			out = append(out, s+"|parameter|names")
		}
	}
	return out
}

func genNames(g *G, site string) *Case {
	p := parsePair(site)
	g.Small = true
	m := g.calendar(p.Comp, p.Prop, false)
	return &Case{How: "names", Model: m, Note: strings.Split(site, "|")[1], At: g.n(1000), N: g.n(len(unknownValues))}
}

// strangeDocs gives the text with a name added, for any name.
func strangeDocs(c *Case) func(name string) string {
	p := parsePair(c.Site)
	lines := (&style{c: plain{}}).lines(c.Model)
	var at []int
	for i, l := range lines {
		if l.Comp.Name == p.Comp && (p.Prop == "" && l.Prop != -1 || p.Prop != "" && l.Prop >= 0 && l.Comp.Props[l.Prop].Name == p.Prop) {
			at = append(at, i)
		}
	}
	if len(at) == 0 {
		return nil
	}
	n := at[c.At%len(at)]
	text := func(l []rline) string {
		var b strings.Builder
		for _, x := range l {
			b.WriteString(x.Text + "\r\n")
		}
		return b.String()
	}
	before, line, after := text(lines[:n]), lines[n].Text, text(lines[n+1:])
	value := unknownValues[c.N]
	return func(name string) string {
		switch c.Note {
		case "property":
			return before + name + ":" + value + "\r\n" + line + "\r\n" + after
		case "component":
			return before + "BEGIN:" + name + "\r\nSUMMARY:inside\r\nUID:" + value + "\r\nEND:" + name + "\r\n" + line + "\r\n" + after
		}
		head, v := splitLine(line)
		return before + head + ";" + name + "=\"" + strings.ReplaceAll(value, "\"", "") + "\":" + v + "\r\n" + after
	}
}

func runNames(c *Case, o *obs) string {
	want, ok := baseline(Str(renderPlain(c.Model)), o)
	if !ok {
		return ""
	}
	p := parsePair(c.Site)
	with := strangeDocs(c)
	if with == nil {
		return ""
	}
	o.Nontrivial = true
	o.label("unknown name: " + c.Note)
	var names []string
	switch {
	case c.Recipe != "":
		names = []string{c.Recipe}
	case c.Note == "property":
		names = strangeProps(p.Comp)
	case c.Note == "component":
		names = strangeComps(p.Comp)
	default:
		names = strangeParams(p)
	}
	for _, n := range names {
		o.each(c.Site + n)
		if fail := decodeTo(with(n), want); fail != "" {
			d := *c
			d.Recipe = n
			o.Narrow = &d
			return fmt.Sprintf("unknown %s %s: %s", c.Note, n, fail)
		}
	}
	return ""
}

// withNames gives a check runs over names too.
func withNames(ck *check) {
	sites, gen, old := ck.Sites, ck.Gen, ck.Run
	ck.Sites = func() []string { return append(sites(), nameSites()...) }
	ck.Gen = func(g *G, site string) *Case {
		if strings.HasSuffix(site, "|names") {
			return genNames(g, site)
		}
		return gen(g, site)
	}
	ck.Run = func(c *Case, o *obs) string {
		if c.How == "names" {
			return runNames(c, o)
		}
		return old(c, o)
	}
}

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for n := range m {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
