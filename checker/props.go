package main

// Which analyses decide which property.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgPath(f *ssa.Function) string {
	p := f.Pkg
	if p == nil && f.Origin() != nil {
		p = f.Origin().Pkg
	}
	if p == nil {
		if f.Parent() != nil {
			return pkgPath(f.Parent())
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Object().Pkg().Path()
		}
		return ""
	}
	return p.Pkg.Path()
}

type unit struct {
	name string
	run  func(w *World, r *UnitResult)
}

var units_ []unit

func addUnit(name string, run func(w *World, r *UnitResult)) {
	units_ = append(units_, unit{name, run})
}

func engUnit(f func(w *World) *Engine) func(w *World, r *UnitResult) {
	return func(w *World, r *UnitResult) { r.addEngine(f(w)) }
}

type prop struct {
	id      string
	units   []string
	cats    map[string]string // category -> units prefix ("" all)
	level   string
	rule    string
	explain string
	assume  []string
}

// concerns says whether a finding of a unit breaks the property.
func (p *prop) concerns(unit, cat string) bool {
	if cat == "undecided" || cat == "panic" || cat == "term" {
		return true // the property is not established for the inputs concerned
	}
	pre, ok := p.cats[cat]
	if !ok {
		return false
	}
	for _, x := range strings.Split(pre, ",") {
		if strings.HasPrefix(unit, x) {
			return true
		}
	}
	return false
}

func cats(l ...string) map[string]string {
	r := map[string]string{}
	for _, x := range l {
		if i := strings.IndexByte(x, '@'); i >= 0 {
			r[x[:i]] = x[i+1:]
		} else {
			r[x] = ""
		}
	}
	return r
}

var trustedBase = []string{
	"go/types, go/ssa (golang.org/x/tools) and the Go compiler's semantics of SSA",
	"the abstract interpreter in /verif/checker (val.go, state.go, interp.go, engine.go)",
	"the reference automata in /verif/checker (mon*.go), which restate the property",
	"models of library functions without analysed source (time, fmt, sync; models.go)",
}

const absint = "Abstract interpretation of the SSA form of the code as it is in /repo, from the public entry point with a completely unknown input, to a fixpoint over all inputs and lengths; in lock step with a reference automaton of the property, whose verdict is compared with every possible result."

var props []*prop

func addProp(p *prop) {
	if p.level == "" {
		p.level = "proof"
	}
	if p.explain == "" {
		p.explain = absint
	}
	props = append(props, p)
}

func propByID(id string) *prop {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

func init() {
	for _, be := range []bool{false, true} {
		for _, c := range []bool{false, true} {
			be, c := be, c
			n := "5424-strict"
			if be {
				n = "5424-be"
			}
			if c {
				n += "-compliant"
			}
			addUnit(strings.Replace(n, "5424-", "5424-machine-", 1), engUnit(func(w *World) *Engine {
				return h5424(w, "NewMachine", be, c, nil, nil)
			}))
			addUnit(n, func(w *World, res *UnitResult) {
				known := map[string]bool{}
				res.addEngine(h5424(w, "NewParser", be, c, nil, known))
				var on, again []string
				if be {
					on = append(on, "WithBestEffort")
				}
				if c {
					on = append(on, "WithCompliantMsg")
				}
				for _, o := range on {
					again = append(again, o+"/again")
				}
				for _, o := range orders(append(again, on...)...) {
					all := true
					for _, n := range on {
						all = all && has(o, n)
					}
					if all && len(o) > 0 {
						res.addEngine(h5424(w, "NewParser", be, c, o, known))
					}
				}
			})
		}
	}
	all5424 := []string{"5424-be", "5424-be-compliant", "5424-strict", "5424-strict-compliant"}
	assume := []string{
		"time.Parse is a deterministic function of layout and text (its acceptance is an uninterpreted predicate shared by code and reference); fmt, sync and map operations behave as documented.",
		"Inputs are shorter than 2^40 bytes; memory is sufficient.",
	}
	addProp(&prop{id: "C01", units: []string{"5424-strict", "5424-strict-compliant"}, assume: assume,
		cats: cats("accept@5424-strict", "silent@5424-strict", "msgaccept@5424-strict"),
		rule: "nil error exactly when the reference automaton of the grammar accepts, in every end state"})
	addProp(&prop{id: "C02", units: all5424, assume: assume,
		cats: cats("field"),
		rule: "each field of the message equals the input slice, number or instant the reference delimits"})
	addProp(&prop{id: "C03", units: append([]string{"remove"}, all5424...), assume: assume,
		cats: cats("sd"),
		rule: "the structured data map equals the reference's map of ids, names and unescaped values"})
	addProp(&prop{id: "C04", units: append([]string{"remove"}, all5424...), assume: assume,
		cats: cats("be", "accept@5424-be", "silent@5424-be", "err@5424-be", "msgerr@5424-be", "msg@5424-be", "msgaccept@5424-be", "field@5424-be", "sd@5424-be,remove", "besteffort"),
		rule: "the partial message equals what the reference completed before the error; nothing in strict mode"})
	addProp(&prop{id: "C05", units: all5424, assume: assume,
		cats: cats("err", "msgerr", "silent", "strictmsg"),
		rule: "the error text equals component text plus the column of the reference's error position"})
	addProp(&prop{id: "C06", units: all5424, assume: assume,
		cats: cats("msgaccept", "msg", "msgerr"),
		rule: "acceptance, text and error of MSG equal the reference's, with and without the option"})
	all3164 := []string{"3164-strict", "3164-strict-rfc3339", "3164-be", "3164-be-rfc3339"}
	opt3164 := []string{"3164-strict-options", "3164-strict-rfc3339-options", "3164-be-options", "3164-be-rfc3339-options"}
	addProp(&prop{id: "C07", units: append(append([]string{}, all3164...), opt3164...), assume: assume,
		cats: cats("accept", "silent", "err", "be", "besteffort"),
		rule: "nil error exactly when the reference automaton accepts; error column and partial message equal the reference's"})
	addProp(&prop{id: "C08", units: all3164, assume: assume,
		cats: cats("field"),
		rule: "each field of the message equals the input slice or number the reference delimits"})
	addProp(&prop{id: "C09", units: append(append([]string{}, all3164...), opt3164...), assume: assume,
		cats: cats("ts"),
		rule: "the timestamp is the documented term over the text, the year and the zones, for all combinations of options"})
	parse := append(append([]string{}, all5424...), all3164...)
	parseOpt := append(append([]string{}, parse...), "3164-strict-options", "3164-be-rfc3339-options")
	addProp(&prop{id: "C11", units: parseOpt, assume: assume,
		cats: cats("history", "besteffort", "shared"),
		rule: "the analysis starts with every field that parsing writes unknown (left over); no decision, result or index may depend on one"})
	addProp(&prop{id: "C12", units: append([]string{"globals"}, parse...), assume: assume,
		cats: cats("lock", "global"),
		rule: "every access of Parse to changing parser state is under its lock, released on all exits; no package variable or data reachable from one is written"})
	addProp(&prop{id: "C13", units: append([]string{"remove"}, parse...), assume: assume,
		cats: cats("alias", "shared", "sd@remove"),
		rule: "no write into the input buffer and no reference from the results to memory that existed before the call"})
	setters := []string{"build-settimestamp", "build-sethostname", "build-setappname", "build-setprocid", "build-setmsgid", "build-setmessage", "build-setpriority", "build-setversion"}
	sdata := []string{"build-setelementid", "build-setelementid-existing", "build-setparameter", "build-setparameter-existing"}
	addProp(&prop{id: "C14", units: setters, assume: assume,
		cats: cats("set"),
		rule: "after the setter the message equals the old one with the given value in its part when the reference automaton of the part accepts the whole text, and the old one otherwise"})
	addProp(&prop{id: "C15", units: append([]string{"remove"}, sdata...), assume: assume,
		cats: cats("sd", "set@build-setelementid,build-setparameter"),
		rule: "after the setter the structured data equals the old map with the documented element or parameter, for an unknown old map with an arbitrary present or absent id and name"})
	addProp(&prop{id: "C17", units: []string{"access-3164", "access-5424"}, assume: assume,
		cats: cats("accessor"),
		rule: "each accessor's result equals the table of RFC 5427 for each code, nil when the code is absent; Valid equals the documented condition; ComputeFromPriority gives quotient and remainder"})
	addProp(&prop{id: "C23", units: []string{"trailer"}, assume: assume,
		cats: cats("trailer"),
		rule: "every conversion equals the table {LF,10},{NUL,0}; texts are read by a reference automaton of the six accepted spellings in any letter case"})
	strs := []string{"string-header", "string-sd"}
	addProp(&prop{id: "C16", units: strs, assume: append([]string{"The structured data has at most three elements of at most two parameters, ids and names in a given order, one value of any bytes and any length at a time; an empty map that is not nil is left out."}, assume...),
		cats:  cats("string"),
		level: "other",
		rule:  "the text equals the RFC 5424 form over the message's parts, for each presence of parts, each shape of structured data and each order of map iteration; the message is unchanged"})
	streams := []string{"stream-octet", "stream-nontransparent"}
	sassume := append([]string{
		"bufio.Reader assembles what its source returns as documented (Peek, Discard, ReadByte, UnreadByte, ReadBytes), whatever the sizes of the single reads; the source is the caller's.",
		"The RFC 5424 parser is a function of its mode and the text (established by C11, C13) and is analysed on its own; the line reader of github.com/leodido/ragel-machinery keeps and reuses its window as its source says.",
		"Maximum lengths are at most 2^40, numbers of octets below 2^60.",
	}, assume...)
	addProp(&prop{id: "C18", units: streams[:1], assume: sassume,
		cats: cats("frame"),
		rule: "between the octets of one frame and the next nothing is lost or read twice: each result is the parser's for exactly the MSGLEN octets behind the header, in order, for an endless history of frames and streams"})
	addProp(&prop{id: "C19", units: streams[:1], assume: sassume,
		cats: cats("fault"),
		rule: "in every state in which the reference automaton of the frame header knows a fault, exactly one result with an error follows and nothing is read or reported after it"})
	addProp(&prop{id: "C20", units: streams[1:], assume: sassume,
		cats: cats("frame"),
		rule: "each result is the parser's for exactly the text the reference splitter delimits, reported while the line after it is looked at; for an endless history of lines and streams"})
	addProp(&prop{id: "C21", units: streams[1:], assume: sassume,
		cats: cats("fault"),
		rule: "at the end of the stream the last message is reported exactly once, then the bytes after the last trailer exactly once, with the parser's error or else the reader's"})
	addProp(&prop{id: "C22", units: streams, assume: sassume,
		cats: cats("options", "listener"),
		rule: "built through the public options in different combinations and orders, the parser behaves as the reference with these settings; every result goes to the listener at its time and is not changed afterwards"})
	addProp(&prop{id: "C24", units: streams, assume: sassume,
		cats: cats("reuse"),
		rule: "the parser's state after a stream, whatever happened in it, is the initial state of the analysis of the next, to a fixpoint; the next stream is compared with the same reference"})
	addProp(&prop{id: "C25", units: streams, assume: sassume,
		cats: cats(),
		rule: "each index, slice, nil dereference, type assertion, negative count and explicit panic reached on any path is shown impossible; each cycle of the fixpoint takes input"})
	addProp(&prop{id: "C27", units: streams, assume: sassume,
		cats: cats("chunk"),
		rule: "the source is read only through a buffering reader, only with operations whose results do not depend on the sizes of single reads, and blocks asked for fit its buffer"})
	for _, id := range []string{"C25"} {
		p := propByID(id)
		p.units = append(append([]string{}, p.units...), "5424-machine-be", "5424-machine-strict")
	}
	machines := []string{"5424-machine-be", "5424-machine-be-compliant", "5424-machine-strict", "5424-machine-strict-compliant",
		"3164-machine-be", "3164-machine-be-rfc3339", "3164-machine-strict", "3164-machine-strict-rfc3339"}
	addProp(&prop{id: "C28", units: machines, assume: assume,
		cats: cats("accept", "silent", "err", "strictmsg", "be", "field", "sd", "ts", "msg", "msgaccept", "msgerr", "besteffort", "history", "alias", "shared", "global", "lasterr"),
		rule: "message and error of the machine without the parser around it equal the reference's, whatever earlier calls left behind, and Err equals the error just returned"})
	access := []string{"access-3164", "access-5424", "trailer"}
	calls := append(append(append(append(append([]string{}, parseOpt...), machines...), setters...), sdata...), append(access, strs...)...)
	addProp(&prop{id: "C10", units: append([]string{"remove"}, calls...), assume: assume,
		cats: cats(),
		rule: "each index, slice, nil dereference, nil map store, type assertion, division and explicit panic reached on any path is shown impossible; each cycle of the fixpoint consumes input"})
	addProp(&prop{id: "C26", units: append([]string{"effects", "stream-octet", "stream-nontransparent"}, calls...), assume: assume,
		cats: cats("effect"),
		rule: "the call graph reaches no clock, environment, randomness, input or output function and no go statement; every map iteration is over a map whose keys are sorted afterwards or part of serialization, which is analysed for all orders; no result holds an address or an order dependent value"})
	_ = fmt.Sprint
}
