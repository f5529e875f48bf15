// Program zz-verif-harness runs operations that no command exposes.
// It reads operations, one JSON object per line, from standard input and writes one result per line.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
	"github.com/UoY-RoboStar/rtcg/internal/validate"
)

// event is an event with a tagged value: "n:5", "i:-5", "e:text", or "" for none.
type event struct {
	C string `json:"c"`
	K string `json:"k"`
	V string `json:"v"`
}

type node struct {
	O string   `json:"o"`
	E event    `json:"e"`
	T []string `json:"t"`
	N []node   `json:"n"`
}

type forbidden struct {
	Name   string  `json:"name"`
	Prefix []event `json:"prefix"`
	Forbid event   `json:"forbid"`
	Own    string  `json:"own,omitempty"`
}

type op struct {
	Op    string      `json:"op"`
	Root  *node       `json:"root"`
	Trace forbidden   `json:"trace"`
	Tests []forbidden `json:"tests"`
	A     []event     `json:"a"`
	B     []event     `json:"b"`
	Name  string      `json:"name"`
}

func toEvent(e event) testlang.Event {
	k, err := channel.ParseKind(e.K)
	if err != nil {
		panic(err)
	}

	val := value.None()

	if e.V != "" {
		switch e.V[:2] {
		case "e:":
			val = value.Enum(e.V[2:])
		default:
			i, err := strconv.ParseInt(e.V[2:], 10, 64)
			if err != nil {
				panic(err)
			}

			val = value.Int(i)
		}
	}

	return testlang.NewEvent(e.C, k, val)
}

func fromEvent(e *testlang.Event) event {
	if e == nil || (e.Channel.Name == "" && e.Value.IsEmpty()) {
		return event{K: "none"}
	}

	out := event{C: e.Channel.Name, K: e.Channel.Kind.String()}

	if e.Value.IsPresent() {
		text, err := e.Value.MarshalText()
		if err != nil {
			panic(err)
		}

		tag := "e:"

		if ty := e.Value.Type(); !ty.IsEnum() {
			tag = "n:"
			if text[0] == '-' {
				tag = "i:"
			}
		}

		out.V = tag + string(text)
	}

	return out
}

func toTrace(es []event) trace.Trace {
	t := trace.New()
	for _, e := range es {
		t = append(t, toEvent(e))
	}

	return t
}

func fromTrace(t trace.Trace) []event {
	es := []event{}
	for i := range t {
		es = append(es, fromEvent(&t[i]))
	}

	return es
}

func toNode(n node) testlang.Node {
	out := testlang.Node{Tests: n.T}

	switch n.O {
	case "weird":
		out.Outcome = testlang.Outcome(77)
	default:
		o, err := testlang.ParseOutcome(n.O)
		if err != nil {
			panic(err)
		}

		out.Outcome = o
	}

	if n.E.K != "none" {
		e := toEvent(n.E)
		out.Event = &e
	}

	for _, c := range n.N {
		out.Next = append(out.Next, toNode(c))
	}

	return out
}

func fromNode(n *testlang.Node) node {
	out := node{O: n.Outcome.String(), E: fromEvent(n.Event), T: n.Tests, N: []node{}}
	if out.T == nil {
		out.T = []string{}
	}

	for i := range n.Next {
		out.N = append(out.N, fromNode(&n.Next[i]))
	}

	return out
}

func toForbidden(f forbidden) trace.Forbidden {
	return trace.Forbidden{Name: f.Name, Prefix: toTrace(f.Prefix), Forbid: toEvent(f.Forbid)}
}

func toTests(fs []forbidden) map[string]trace.Forbidden {
	m := map[string]trace.Forbidden{}
	for _, f := range fs {
		m[f.Name] = toForbidden(f)

		// The trace may go by another name than its own.
		if f.Own != "" {
			t := m[f.Name]
			t.Name = f.Own
			m[f.Name] = t
		}
	}

	return m
}

func run(o op) (res map[string]any) {
	defer func() {
		if r := recover(); r != nil {
			res = map[string]any{"panic": fmt.Sprint(r)}
		}
	}()

	switch o.Op {
	case "expand":
		return map[string]any{"root": fromNode(toForbidden(o.Trace).Expand(o.Name))}
	case "collapse":
		n := toNode(*o.Root)

		f, err := trace.Collapse(&n)
		if err != nil {
			return map[string]any{"ok": false, "prefix": []event{}, "forbid": event{K: "none"}, "err": err.Error()}
		}

		return map[string]any{"ok": true, "prefix": fromTrace(f.Prefix), "forbid": fromEvent(&f.Forbid)}
	case "validate":
		n := toNode(*o.Root)
		_, err := validate.Full(&n)

		return map[string]any{"ok": err == nil}
	case "collapseAll":
		suite := testlang.Suite{}
		for _, f := range o.Tests {
			suite[f.Name] = toForbidden(f).Expand(f.Name)
		}

		m, err := trace.CollapseAll(suite)
		if err != nil {
			return map[string]any{"ok": false, "tests": []forbidden{}}
		}

		out := []forbidden{}
		for k, f := range m {
			out = append(out, forbidden{Name: k, Prefix: fromTrace(f.Prefix), Forbid: fromEvent(&f.Forbid)})
		}

		return map[string]any{"ok": true, "tests": out}
	case "failures":
		out := []map[string]any{}
		for _, f := range factorise.Failures(toTests(o.Tests), toTrace(o.A)) {
			out = append(out, map[string]any{"test": f.Test, "event": fromEvent(&f.Event)})
		}

		return map[string]any{"failures": out}
	case "spine":
		out := []node{}
		nodes := factorise.SpineNodes(toTests(o.Tests), toTrace(o.A))

		for i := range nodes {
			out = append(out, fromNode(&nodes[i]))
		}

		return map[string]any{"spine": out}
	case "compare":
		a, b := toTrace(o.A), toTrace(o.B)

		return map[string]any{"eq": a.Equals(b), "pre": a.IsPrefixOf(b)}
	default:
		panic("unknown operation " + o.Op)
	}
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<30)

	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)

	for in.Scan() {
		var o op
		if err := json.Unmarshal(in.Bytes(), &o); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}

		if err := enc.Encode(run(o)); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}

		// The next operation may bring the process down.
		if err := out.Flush(); err != nil {
			os.Exit(3)
		}
	}
}
