package checks

// Assumptions lists what each property's verdict rests on.
func Assumptions(id string) []string {
	out := []string{
		"the Go type checker and golang.org/x/tools/go/ssa represent the program faithfully",
		"the standard library and the other dependencies behave as documented; their calls can have every outcome a rule names",
	}
	return append(append(out, assumptions[id[:1]]...), assumptions[id]...)
}

// by property, or by the letter of a group of them
var assumptions = map[string][]string{
	"W": {
		"a limiter or locker client that reports success did what was asked, and one that reports an error did nothing (M01-M04, L01-L05 and A04 decide that for the services and clients)",
		"the associated trees keep what they are documented to (D01, D03, D05, D06, D08)",
	},
	"L": {"the associated trees keep what they are documented to (D01, D03, D05, D06, D08)"},
	"M": {
		"a lock that the locker client reports as obtained is held by nobody else (L01)",
		"the associated trees find exactly the items a query names (D06, D07, D10)",
	},
	"A":   {"github.com/DanLavine/urlrouter calls the handler registered for the method and path of a request"},
	"D":   {"larger nodes and trees behave like the small ones that are enumerated (node sizes and worlds are given in the evidence)"},
	"S":   {"goroutines start where a go statement, the task manager or net/http starts them"},
	"C":   {"github.com/DanLavine/goasync stops every task by ending its context and waits for all of them"},
	"C02": {"flag and os.LookupEnv behave as documented"},
}
