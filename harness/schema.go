package main

// The schema is this harness's own statement of which properties each
// component may hold, how often, and of which parameters and value kinds each
// property takes. Field names are those of the exported structs.

type card uint8

const (
	one  card = iota // exactly once
	opt              // at most once
	many             // any number
)

type propUse struct {
	Name  string
	Field string
	Card  card
}

type compDef struct {
	Name   string // VEVENT, VALARM:AUDIO, ...
	Field  string // field of the parent holding the slice
	Props  []propUse
	Subs   []string // component names (VALARM stands for all alarm kinds)
	Parent string
}

type kind string

const (
	kText     kind = "text"
	kMText    kind = "mtext"
	kURI      kind = "uri"
	kAddr     kind = "caladdr"
	kDate     kind = "date"
	kDateTime kind = "datetime"
	kDuration kind = "duration"
	kPeriod   kind = "period"
	kRecur    kind = "recur"
	kInteger  kind = "integer"
	kGeo      kind = "geo"
	kBool     kind = "boolean"
	kOffset   kind = "offset"
	kBinary   kind = "binary"
	kEnum     kind = "enum"
)

type paramKind uint8

const (
	pText   paramKind = iota // free text, quoted only when needed
	pQText                   // free text, always quoted
	pQTexts                  // list of free texts, always quoted
	pQURI                    // URI, always quoted
	pQAddrs                  // list of addresses, always quoted
	pEnum                    // keyword, unknown ones allowed
	pBool                    // TRUE or FALSE
	pFmt                     // media type
	pRange                   // THISANDFUTURE
)

type paramDef struct {
	Name  string
	Field string
	Kind  paramKind
	Enum  []string // keywords in constant order, starting after Unknown
}

type propDef struct {
	Name   string
	Kinds  []kind // first is the default
	Params []string
	Enum   []string // keywords in constant order
}

var paramDefs = map[string]*paramDef{
	"ALTREP":         {"ALTREP", "AlternativeRepresentation", pQURI, nil},
	"CN":             {"CN", "CommonName", pText, nil},
	"CUTYPE":         {"CUTYPE", "CalendarUserType", pEnum, []string{"INDIVIDUAL", "GROUP", "RESOURCE", "ROOM"}},
	"DELEGATED-FROM": {"DELEGATED-FROM", "Delegator", pQAddrs, nil},
	"DELEGATED-TO":   {"DELEGATED-TO", "Delagatee", pQAddrs, nil},
	"DIR":            {"DIR", "DirectoryEntry", pQText, nil},
	"FMTTYPE":        {"FMTTYPE", "FormatType", pFmt, nil},
	"FBTYPE":         {"FBTYPE", "FreeBusyType", pEnum, []string{"FREE", "BUSY", "BUSY-UNAVAILABLE", "BUSY-TENTATIVE"}},
	"LANGUAGE":       {"LANGUAGE", "Language", pText, nil},
	"MEMBER":         {"MEMBER", "Member", pQTexts, nil},
	"PARTSTAT":       {"PARTSTAT", "ParticipationStatus", pEnum, []string{"NEEDS-ACTION", "ACCEPTED", "DECLINED", "TENTATIVE", "DELEGATED", "COMPLETED", "IN-PROCESS"}},
	"RANGE":          {"RANGE", "Range", pRange, nil},
	"RELTYPE":        {"RELTYPE", "RelationshipType", pEnum, []string{"PARENT", "CHILD", "SIBLING"}},
	"ROLE":           {"ROLE", "ParticipationRole", pEnum, []string{"REQ-PARTICIPANT", "CHAIR", "OPT-PARTICIPANT", "NON-PARTICIPANT"}},
	"RSVP":           {"RSVP", "RSVP", pBool, nil},
	"SENT-BY":        {"SENT-BY", "SentBy", pQText, nil},
	"URI":            {"URI", "URI", pQURI, nil},
	"ID":             {"ID", "ID", pQText, nil},
	"AGENT-ID":       {"AGENT-ID", "AgentID", pQText, nil},
}

func pd(name string, kinds []kind, params ...string) *propDef {
	return &propDef{Name: name, Kinds: kinds, Params: params}
}

func ks(k ...kind) []kind { return k }

var propDefs = map[string]*propDef{}

func init() {
	for _, p := range []*propDef{
		pd("ATTACH", ks(kURI, kBinary), "FMTTYPE"),
		pd("ATTENDEE", ks(kAddr), "CUTYPE", "MEMBER", "ROLE", "PARTSTAT", "RSVP", "DELEGATED-TO", "DELEGATED-FROM", "SENT-BY", "CN", "DIR", "LANGUAGE"),
		pd("CATEGORIES", ks(kMText), "LANGUAGE"),
		{Name: "CLASS", Kinds: ks(kEnum), Enum: []string{"PUBLIC", "PRIVATE", "CONFIDENTIAL"}},
		pd("COMMENT", ks(kText), "ALTREP", "LANGUAGE"),
		pd("COMPLETED", ks(kDateTime)),
		pd("CONTACT", ks(kText), "ALTREP", "LANGUAGE"),
		pd("CREATED", ks(kDateTime)),
		pd("DESCRIPTION", ks(kText), "ALTREP", "LANGUAGE"),
		pd("DTEND", ks(kDateTime, kDate)),
		pd("DTSTAMP", ks(kDateTime)),
		pd("DTSTART", ks(kDateTime, kDate)),
		pd("DUE", ks(kDateTime, kDate)),
		pd("DURATION", ks(kDuration)),
		pd("EXDATE", ks(kDateTime, kDate)),
		pd("FREEBUSY", ks(kPeriod), "FBTYPE"),
		pd("GEO", ks(kGeo)),
		pd("LAST-MODIFIED", ks(kDateTime)),
		pd("LOCATION", ks(kText), "ALTREP", "LANGUAGE"),
		pd("ORGANIZER", ks(kAddr), "CN", "DIR", "SENT-BY", "LANGUAGE"),
		pd("PERCENT-COMPLETE", ks(kInteger)),
		pd("PRIORITY", ks(kInteger)),
		pd("PRODID", ks(kText)),
		pd("RDATE", ks(kDateTime, kDate, kPeriod)),
		pd("RECURRENCE-ID", ks(kDateTime, kDate), "RANGE"),
		pd("RELATED-TO", ks(kText), "RELTYPE"),
		pd("REPEAT", ks(kInteger)),
		pd("REQUEST-STATUS", ks(kText)),
		pd("RESOURCES", ks(kMText), "ALTREP", "LANGUAGE"),
		pd("RRULE", ks(kRecur)),
		pd("SEQUENCE", ks(kInteger)),
		{Name: "STATUS", Kinds: ks(kEnum), Enum: []string{"TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"}},
		pd("SUMMARY", ks(kText), "ALTREP", "LANGUAGE"),
		{Name: "TRANSP", Kinds: ks(kEnum), Enum: []string{"OPAQUE", "TRANSPARENT"}},
		pd("TRIGGER", ks(kDuration, kDateTime)),
		pd("TZID", ks(kText)),
		pd("TZNAME", ks(kText), "LANGUAGE"),
		pd("TZOFFSETFROM", ks(kOffset)),
		pd("TZOFFSETTO", ks(kOffset)),
		pd("TZURL", ks(kURI)),
		pd("UID", ks(kText)),
		pd("URL", ks(kURI)),
		pd("URI", ks(kURI)),
		pd("VERSION", ks(kText)),
		pd("ALARM-AGENT", ks(kText), "URI", "ID", "AGENT-ID"),
		{Name: "ALARM/STATUS", Kinds: ks(kEnum), Enum: []string{"ACTIVE", "CANCELLED", "COMPLETED"}},
		pd("LAST-TRIGGERED", ks(kDateTime)),
		pd("ACKNOWLEDGED", ks(kDateTime)),
		pd("PROXIMITY", ks(kText)),
		pd("GEO-LOCATION", ks(kURI)),
		pd("DEFAULT-ALARM", ks(kBool)),
	} {
		propDefs[p.Name] = p
	}

	for _, c := range compList {
		compDefs[c.Name] = c
	}
}

// defOf gives the definition of a property within a component; the alarm
// STATUS has other keywords than the STATUS of the other components.
func defOf(comp, prop string) *propDef {
	if prop == "STATUS" && isAlarm(comp) {
		return propDefs["ALARM/STATUS"]
	}
	return propDefs[prop]
}

func isAlarm(comp string) bool { return len(comp) > 6 && comp[:6] == "VALARM" }

var fieldNames = map[string]string{
	"ATTACH": "Attachment", "ATTENDEE": "Attendee", "CATEGORIES": "Categories", "CLASS": "Class", "COMMENT": "Comment",
	"COMPLETED": "Completed", "CONTACT": "Contact", "CREATED": "Created", "DESCRIPTION": "Description", "DTEND": "DateTimeEnd",
	"DTSTAMP": "DateTimeStamp", "DTSTART": "DateTimeStart", "DUE": "Due", "DURATION": "Duration", "EXDATE": "ExceptionDateTime",
	"FREEBUSY": "FreeBusy", "GEO": "Geo", "LAST-MODIFIED": "LastModified", "LOCATION": "Location", "ORGANIZER": "Organizer",
	"PERCENT-COMPLETE": "PercentComplete", "PRIORITY": "Priority", "PRODID": "ProductID", "RDATE": "RecurrenceDateTimes",
	"RECURRENCE-ID": "RecurrenceID", "RELATED-TO": "RelatedTo", "REPEAT": "Repeat", "REQUEST-STATUS": "RequestStatus",
	"RESOURCES": "Resources", "RRULE": "RecurrenceRule", "SEQUENCE": "Sequence", "STATUS": "Status", "SUMMARY": "Summary",
	"TRANSP": "TimeTransparency", "TRIGGER": "Trigger", "TZID": "TimezoneID", "TZNAME": "TimezoneName",
	"TZOFFSETFROM": "TimezoneOffsetFrom", "TZOFFSETTO": "TimezoneOffsetTo", "TZURL": "TimezoneURL", "UID": "UID", "URL": "URL",
	"URI": "URI", "VERSION": "Version", "ALARM-AGENT": "AlarmAgent", "LAST-TRIGGERED": "LastTriggered",
	"ACKNOWLEDGED": "Acknowledged", "PROXIMITY": "Proximity", "GEO-LOCATION": "GeoLocation", "DEFAULT-ALARM": "DefaultAlarm",
}

func uses(comp string, required, optional, multiple []string) []propUse {
	var out []propUse
	add := func(l []string, c card) {
		for _, n := range l {
			f := fieldNames[n]
			if n == "STATUS" && isAlarm(comp) {
				f = "AlarmStatus"
			}
			out = append(out, propUse{n, f, c})
		}
	}
	add(required, one)
	add(optional, opt)
	add(multiple, many)
	return out
}

func l(s ...string) []string { return s }

var compDefs = map[string]*compDef{}

func mkComp(name, parent, field string, req, op, mul, subs []string) *compDef {
	return &compDef{Name: name, Parent: parent, Field: field, Props: uses(name, req, op, mul), Subs: subs}
}

var compList = []*compDef{
	mkComp("VCALENDAR", "", "", l("VERSION", "PRODID"), nil, nil, l("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE")),
	mkComp("VEVENT", "VCALENDAR", "Event", l("DTSTAMP", "UID"),
		l("DTSTART", "CLASS", "CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PRIORITY", "SEQUENCE", "STATUS", "SUMMARY", "TRANSP", "URL", "RECURRENCE-ID", "RRULE", "DTEND", "DURATION"),
		l("ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE"), l("VALARM")),
	mkComp("VTODO", "VCALENDAR", "Todo", l("DTSTAMP", "UID"),
		l("CLASS", "COMPLETED", "CREATED", "DESCRIPTION", "DTSTART", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PERCENT-COMPLETE", "PRIORITY", "RECURRENCE-ID", "SEQUENCE", "STATUS", "SUMMARY", "URL", "DUE", "DURATION"),
		l("ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE"), l("VALARM")),
	mkComp("VJOURNAL", "VCALENDAR", "Journal", l("DTSTAMP", "UID"),
		l("CLASS", "CREATED", "DTSTART", "LAST-MODIFIED", "ORGANIZER", "RECURRENCE-ID", "SEQUENCE", "STATUS", "SUMMARY", "URL", "RRULE"),
		l("ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "DESCRIPTION", "EXDATE", "REQUEST-STATUS", "RELATED-TO", "RESOURCES", "RDATE"), nil),
	mkComp("VFREEBUSY", "VCALENDAR", "FreeBusy", l("DTSTAMP", "UID"),
		l("CONTACT", "DTSTART", "DTEND", "ORGANIZER", "URL"), l("ATTENDEE", "COMMENT", "FREEBUSY", "REQUEST-STATUS"), nil),
	mkComp("VTIMEZONE", "VCALENDAR", "Timezone", l("TZID"), l("LAST-MODIFIED", "TZURL"), nil, l("STANDARD", "DAYLIGHT")),
	mkComp("STANDARD", "VTIMEZONE", "Standard", l("DTSTART", "TZOFFSETTO", "TZOFFSETFROM"), l("RRULE"), l("COMMENT", "RDATE", "TZNAME"), nil),
	mkComp("DAYLIGHT", "VTIMEZONE", "Daylight", l("DTSTART", "TZOFFSETTO", "TZOFFSETFROM"), l("RRULE"), l("COMMENT", "RDATE", "TZNAME"), nil),
	mkAlarm("AUDIO", l("TRIGGER"), nil, l("ATTACH")),
	mkAlarm("DISPLAY", l("DESCRIPTION", "TRIGGER"), nil, nil),
	mkAlarm("EMAIL", l("DESCRIPTION", "TRIGGER", "SUMMARY"), l("ATTENDEE"), nil),
	mkAlarm("URI", l("URI"), nil, nil),
	{Name: "VALARM:NONE", Parent: "VALARM", Field: "Alarm"},
}

var alarmKinds = []string{"AUDIO", "DISPLAY", "EMAIL", "URI", "NONE"}

func mkAlarm(kind string, req, op, mul []string) *compDef {
	op = append(op, "DURATION", "REPEAT", "UID", "STATUS", "ACKNOWLEDGED", "PROXIMITY", "RELATED-TO", "DEFAULT-ALARM")
	mul = append(mul, "ALARM-AGENT", "LAST-TRIGGERED", "GEO-LOCATION")
	return mkComp("VALARM:"+kind, "VALARM", "Alarm", req, op, mul, nil)
}

// A rule ties properties of one component together.
type rule struct {
	Comp string
	Kind string // "excl": at most one of A,B; "needs": A requires B; "both": A iff B; "oneof": sub A or sub B
	A, B string
}

var rules = []rule{
	{"VEVENT", "excl", "DTEND", "DURATION"},
	{"VTODO", "needs", "DURATION", "DTSTART"},
	{"VTODO", "excl", "DUE", "DURATION"},
	{"VTIMEZONE", "oneof", "STANDARD", "DAYLIGHT"},
	{"VALARM:AUDIO", "needs", "GEO-LOCATION", "PROXIMITY"},
	{"VALARM:DISPLAY", "needs", "GEO-LOCATION", "PROXIMITY"},
	{"VALARM:EMAIL", "needs", "GEO-LOCATION", "PROXIMITY"},
	{"VALARM:URI", "needs", "GEO-LOCATION", "PROXIMITY"},
	{"VALARM:EMAIL", "both", "DURATION", "REPEAT"},
	{"VALARM:URI", "both", "DURATION", "REPEAT"},
}
