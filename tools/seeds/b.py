"""Planted changes of reading, naming, tests and state machines (C07-C13, C18, C19, C21)."""
SEEDS = {
 'c07-last-colon': dict(
  property='C07',
  needs='a value with a colon in the first cell of a line',
  breaks='the name is everything up to the last colon, and the value loses its beginning',
  edits=[('internal/trace/read.go', '''	if name, rest, ok := strings.Cut(cell, ":"); ok {
		trace.Name = strings.TrimSpace(name)
		cell = strings.TrimSpace(rest)
	}
''', '''	if i := strings.LastIndex(cell, ":"); 0 <= i {
		trace.Name = strings.TrimSpace(cell[:i])
		cell = strings.TrimSpace(cell[i+1:])
	}
''')],
  demo='''
printf 'n: a.out.12:30, b.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.12:30"' "$d/o" || fail event
grep -q '"n": {' "$d/o" || fail name
echo ok
'''),
 'c07-lazy-quotes': dict(
  property='C07',
  needs='a line with a misplaced quotation mark',
  breaks='the malformed line is read as if the mark were part of the value',
  edits=[('internal/trace/read.go', '''	cr.TrimLeadingSpace = true
''', '''	cr.TrimLeadingSpace = true
	cr.LazyQuotes = true
''')],
  demo='''
printf 'a.out.x, b.out.5" pipe\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" 2>/dev/null && fail accepted
echo ok
'''),
 'c07-dots': dict(
  property='C07',
  needs='a text value with a dot',
  breaks='such a file is rejected although it can be read',
  edits=[('internal/testlang/channel/channel.go', 'fields := bytes.SplitN(text, []byte(EventSep), numEventParts)', 'fields := bytes.Split(text, []byte(EventSep))')],
  demo='''
printf 'a.out.x, speed.out.1.5\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"speed.out.1.5"' "$d/o" || fail value
echo ok
'''),
 'c08-counting': dict(
  property='C08',
  needs='a named trace that has the numbered name that a later repeated name gets',
  breaks='the later trace overwrites the earlier one',
  edits=[('internal/trace/trace.go', '''	for i := 0; ; i++ {
		name := synthesiseName(base, i)

		if _, ok := result[name]; !ok {
			result[name] = trace

			return
		}
	}
''', '''	taken := 0

	for _, other := range result {
		if other.Name == base || other.Name == "" && base == "test" {
			taken++
		}
	}

	result[synthesiseName(base, taken)] = trace
''')],
  demo='''
printf 'foo0: a.out.x\\nfoo: b.out.x\\nfoo: c.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
[ "$(grep -c '\\.out\\.x' "$d/o")" = 3 ] || fail "lost a trace"
echo ok
'''),
 'c08-capital-test': dict(
  property='C08',
  needs='a trace named Test',
  breaks='its name is not kept',
  edits=[('internal/trace/trace.go', 'case base == "test":', 'case strings.EqualFold(base, "test"):')],
  demo='''
printf 'Test: a.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"Test": {' "$d/o" || fail renamed
echo ok
'''),
 'c09-own-name': dict(
  property='C09',
  needs='two traces with the same name',
  breaks='the second test is marked with the name of the first',
  edits=[('internal/trace/expand.go', '''	// Work backwards through the trace, building the tree from the failure.
''', '''	// The trace knows best what it is called.
	if t.Name != "" {
		name = t.Name
	}

	// Work backwards through the trace, building the tree from the failure.
''')],
  demo='''
printf 'foo: a.out.x\\nfoo: b.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
[ "$(grep -c '^\\s*"foo0"$' "$d/o")" = 3 ] || fail marks
echo ok
'''),
 'c09-branch': dict(
  property='C09',
  needs='collapsing a test that branches after an inconclusive node',
  breaks='the test is collapsed to one of its branches instead of being rejected',
  edits=[('internal/trace/collapse.go', '''		if test, err = validate.OneNext(test); err != nil {
			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, err)
		}
''', '''		if len(test.Next) == 0 {
			return collapsed, fmt.Errorf("couldn't get node %d: %w", pos, validate.ErrNeedOneNode)
		}

		test = &test.Next[0]
''')],
  demo='''
goprog <<'X' || fail accepted
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	ev := testlang.Output("a", value.Enum("x"))
	node := testlang.Root(testlang.Inc(ev, testlang.TestPoint(ev, "t"), testlang.TestPoint(testlang.Output("b", value.Int(3)), "t")))
	testlang.MarkAll(&node, "t")
	if _, err := trace.Collapse(&node); err == nil {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c10-nested-root': dict(
  property='C10',
  needs='a nested node without event and outcome that is not followed as a state by the builder',
  breaks='the ill-formed node is taken for a root and is not rejected as such',
  edits=[('internal/validate/validate.go', 'if node == root {', 'if node == root || node.Event == nil && node.Outcome == testlang.OutcomeUnset {')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t": {"tests": ["t"], "next": [
 {"tests": ["t"], "outcome": "inc", "event": "a.out.x", "next": [
  {"tests": ["t"], "next": [{"tests": ["t"], "outcome": "pass", "event": "b.out.x", "next": [{"tests": ["t"], "outcome": "fail"}]}]}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" 2> "$d/e"
[ $? = 1 ] || fail "not rejected"
grep -q goroutine "$d/e" && fail crashed
echo ok
'''),
 'c10-dead-end': dict(
  property='C10',
  needs='a failing node that has exactly one continuation',
  breaks='the ill-formed node is accepted',
  edits=[('internal/validate/node.go', '''	if len(node.Next) != 0 {
		return ErrFailHasNextNodes''', '''	if 1 < len(node.Next) {
		return ErrFailHasNextNodes''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t": {"tests": ["t"], "next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.x", "next": [
  {"tests": ["t"], "outcome": "fail", "next": [{"tests": ["t"], "outcome": "fail"}]}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" 2> "$d/e" && fail "not rejected"
echo ok
'''),
 'c10-root-marks': dict(
  property='C10',
  needs='a test whose root is not marked with a test while all other nodes are',
  breaks='the ill-formed root is accepted',
  edits=[('internal/validate/node.go', '''	if node.Outcome != testlang.OutcomeUnset {
		return ErrRootHasOutcome
	}

	if len(node.Tests) == 0 {
		return ErrNoTests
	}
''', '''	if node.Outcome != testlang.OutcomeUnset {
		return ErrRootHasOutcome
	}

	if len(node.Tests) == 0 && len(node.Next) == 0 {
		return ErrNoTests
	}
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t": {"next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.x", "next": [{"tests": ["t"], "outcome": "fail"}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" 2> "$d/e" && fail "not rejected"
echo ok
'''),
 'c11-last-set': dict(
  property='C11',
  needs='a node with three continuations on two channels, those of the one channel not being next to each other',
  breaks='a state gets two sets for the same channel',
  edits=[('internal/stm/transition/set.go', '''	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
			ts.Transitions = append(ts.Transitions, transition)

			return sets
		}
	}
''', '''	if last := len(sets) - 1; 0 <= last {
		if ts := &sets[last]; ts.IsForChannel(channel) {
			ts.Transitions = append(ts.Transitions, transition)

			return sets
		}
	}
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t": {"tests": ["t"], "next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.x", "next": [{"tests": ["t"], "outcome": "fail"}]},
 {"tests": ["t"], "outcome": "pass", "event": "b.out.x", "next": [{"tests": ["t"], "outcome": "fail"}]},
 {"tests": ["t"], "outcome": "pass", "event": "a.out.y", "next": [{"tests": ["t"], "outcome": "fail"}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" || fail rejected
[ "$(grep -c '"channel": "a.out"' "$d/o")" = 1 ] || fail "two sets"
echo ok
'''),
 'c11-root-tests': dict(
  property='C11',
  needs='a tree in which a failing leaf alone is marked with a test',
  breaks='the machine does not list that test',
  edits=[('internal/stm/builder.go', '''		b.ensureNodeID(np)
		b.stm.Tests.Add(np.Tests...)
''', '''		b.ensureNodeID(np)

		if np.Event != nil {
			b.stm.Tests.Add(np.Tests...)
		}

''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"m": {"tests": ["p", "q"], "next": [
 {"tests": ["p"], "outcome": "inc", "event": "a.out.x", "next": [
  {"tests": ["q"], "outcome": "fail"},
  {"tests": ["p"], "outcome": "pass", "event": "c.out.z", "next": [{"tests": ["p"], "outcome": "fail"}]}
 ]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" || fail rejected
python3 - "$d/o" <<'X' || fail "test missing"
import json, sys
sys.exit(sorted(json.load(open(sys.argv[1]))['tests']['m']['tests']) != ['p', 'q'])
X
echo ok
'''),
 'c12-first-type': dict(
  property='C12',
  needs='a channel that is natural in one test and integer (or text) in another',
  breaks='the type over all tests is that of one of them, at random',
  edits=[('internal/stm/builder.go', '''			uType, err := rstype.Unify(cType, tmap[cName])
''', '''			if known, ok := tmap[cName]; ok && known == cType {
				continue
			}

			uType, err := cType, error(nil)
''')],
  demo='''
printf 'a: c.out.1\\nb: c.out.-1\\nd: c.out.2\\n' > "$d/traces"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  stms || fail rejected
  python3 -c 'import json, sys; sys.exit(json.load(open(sys.argv[1]))["types"]["c"] != "int")' "$d/stms.json" || fail type
done
echo ok
'''),
 'c12-forbidden': dict(
  property='C12',
  needs='a channel whose only negative value is that of the forbidden event',
  breaks='the type does not cover the value of the forbidden event',
  edits=[('internal/stm/builder.go', '''	if node.Event == nil {
		return nil
	}

	return b.inferEventType(node.Event)''', '''	if node.Event == nil {
		return nil
	}

	// The event of a passing node never happens if all goes well.
	if known := b.stm.Types[node.Event.Channel.Name]; known != nil && node.Outcome == testlang.OutcomePass {
		return nil
	}

	return b.inferEventType(node.Event)''')],
  demo='''
printf 'a: c.out.1, c.out.-1\\n' > "$d/traces"
stms || fail rejected
python3 -c 'import json, sys; sys.exit(json.load(open(sys.argv[1]))["types"]["c"] != "int")' "$d/stms.json" || fail type
echo ok
'''),
 'c13-base': dict(
  property='C13',
  needs='an integer with leading zeros, or a text that is a number in some other base',
  breaks='the value changes its meaning',
  edits=[('internal/testlang/value/int.go', 'strconv.ParseInt(string(text), intValueBase, 64)', 'strconv.ParseInt(string(text), 0, 64)')],
  demo='''
printf 'a.out.010, b.out.0x1f\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.10"' "$d/o" && grep -q '"b.out.0x1f"' "$d/o" || fail value
echo ok
'''),
 'c13-plus': dict(
  property='C13',
  needs='an integer that does not fit 64 bits',
  breaks='the value becomes another integer',
  edits=[('internal/testlang/value/int.go', '''	if err != nil {
		return fmt.Errorf("couldn't parse %q as int: %w", string(text), err)
	}
''', '''	if err != nil && !errors.Is(err, strconv.ErrRange) {
		return fmt.Errorf("couldn't parse %q as int: %w", string(text), err)
	}
'''), ('internal/testlang/value/int.go', 'import (\n', 'import (\n\t"errors"\n')],
  demo='''
printf 'a.out.99999999999999999999\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.99999999999999999999"' "$d/o" || fail value
echo ok
'''),
 'c13-quoting': dict(
  property='C13',
  needs='a text value that has a trailing dot, or consists of dots',
  breaks='the dots are lost between the stages',
  edits=[('internal/testlang/event.go', '	return channel.EventSepJoin(chanBytes, val), nil', '	return bytes.TrimRight(channel.EventSepJoin(chanBytes, val), channel.EventSep), nil'),
         ('internal/testlang/event.go', 'import (\n', 'import (\n\t"bytes"\n')],
  demo='''
printf 'a.out.etc., b.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.etc."' "$d/o" || fail value
echo ok
'''),
 'c18-interned': dict(
  property='C18',
  needs='two traces of one file with values that differ in letter case only',
  breaks='the value of the later trace becomes that of the earlier one',
  edits=[('internal/testlang/value/value.go', '''	"reflect"
''', '''	"reflect"
	"sync"
'''), ('internal/testlang/value/value.go', '''	text = bytes.TrimSpace(text)

	for''', '''	text = bytes.TrimSpace(text)

	key := string(bytes.ToUpper(text))
	if content, ok := interned.Load(key); ok {
		v.content, _ = content.(Valuable)

		return nil
	}

	for'''), ('internal/testlang/value/value.go', '''		if v.content != nil {
			return nil
		}
''', '''		if v.content != nil {
			interned.Store(key, v.content)

			return nil
		}
'''), ('internal/testlang/value/value.go', '''func (v *Value) Type() ''', '''// interned holds the values read so far; most values occur over and over.
var interned sync.Map

func (v *Value) Type() ''')],
  demo='''
printf 'x: a.out.Go\\ny: a.out.go\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.Go"' "$d/o" && grep -q '"a.out.go"' "$d/o" || fail value
echo ok
'''),
 'c18-counter': dict(
  property='C18',
  needs='a suite with more than one test',
  breaks='the identifiers of the states of a test depend on the tests built before it, in random order',
  edits=[('internal/stm/builder.go', '	b.nodeNum = 0\n', '')],
  demo='''
printf 'x: a.out.1, b.out.1\\ny: a.out.2, b.out.2\\nz: a.out.3, b.out.3\\n' > "$d/traces"
stms || fail rejected
python3 - "$d/stms.json" <<'X' || fail states
import json, sys
sys.exit(any([s['id'] for s in m['states']] != ['initial', 'step0', 'step1'] for m in json.load(open(sys.argv[1]))['tests'].values()))
X
echo ok
'''),
 'c19-truncated': dict(
  property='C19',
  needs='a suite file that is cut short',
  breaks='the stage takes it for an empty suite and succeeds',
  edits=[('internal/serial/serial.go', '''	if err := j.Decode(dest); err != nil {
		return fmt.Errorf("JSON read error''', '''	if err := j.Decode(dest); errors.Is(err, io.ErrUnexpectedEOF) {
		return nil
	} else if err != nil {
		return fmt.Errorf("JSON read error''')],
  demo='''
printf 'x: a.out.1, b.out.1\\n' > "$d/traces"
stms || fail rejected
head -c 60 "$d/tests.json" > "$d/cut.json"
"$B/rtcg-make-stms" "$d/cut.json" > "$d/o" 2> "$d/e" && fail accepted
echo ok
'''),
 'c19-template': dict(
  property='C19',
  needs='a write that fails while a file is being generated',
  breaks='the generator succeeds with a truncated file',
  edits=[('internal/gen/templating/templating.go', '''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)

	return errors.Join(err, file.Close())
''', '''	var perr *os.PathError

	if err = tmpl.ExecuteTemplate(file, tmplName, ctx); errors.As(err, &perr) {
		// Closing the file reports any problems with it.
		err = nil
	}

	return errors.Join(err, file.Close())
''')],
  demo='''
printf 'x: a.out.1, b.out.1\\n' > "$d/traces"
stms || fail rejected
mkdir -p "$d/out/animate/src/x/src"
ln -s /dev/full "$d/out/animate/src/x/src/main.cpp"
gen '<cpp variant="animate"/>' 2> "$d/e" && fail succeeded
echo ok
'''),
 'c21-prefix': dict(
  property='C21',
  needs='a test with a shorter prefix than the sequence asked about',
  breaks='tests are listed that cannot fail there',
  edits=[('internal/factorise/factorise.go', 't.Prefix.Equals(after)', 't.Prefix.IsPrefixOf(after)')],
  demo='''
goprog <<'X' || fail "wrong failures"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a, b := testlang.Output("a", value.Enum("x")), testlang.Output("b", value.Enum("x"))
	tests := map[string]trace.Forbidden{"s": trace.Trace{a}.Forbid(b), "l": trace.Trace{a, b}.Forbid(a)}
	if fs := factorise.Failures(tests, trace.Trace{a, b}); len(fs) != 1 || fs[0].Test != "l" {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c21-calls': dict(
  property='C21',
  needs='a test that fails on an operation call',
  breaks='the call gets a branch of its own instead of joining the outputs',
  edits=[('internal/factorise/factorise.go', 'if f.Event.Channel.IsIn() {', 'if !f.Event.Channel.IsOut() {')],
  demo='''
goprog <<'X' || fail "wrong nodes"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a, b := testlang.NewEvent("a", channel.KindCall, value.Enum("x")), testlang.Output("b", value.Enum("x"))
	tests := map[string]trace.Forbidden{"s": trace.Trace{}.Forbid(b), "l": trace.Trace{}.Forbid(a)}
	if len(factorise.SpineNodes(tests, nil)) != 1 {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c21-text': dict(
  property='C21',
  needs='two events whose values are a number and the same number as text',
  breaks='the two events are taken for the same',
  edits=[('internal/testlang/value/value.go', 'return reflect.DeepEqual(v.content, other.content)', 'return v.content.StringValue() == other.content.StringValue()'),
         ('internal/testlang/value/value.go', '\t"reflect"\n', '')],
  demo='''
goprog <<'X' || fail equal
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a, b := trace.Trace{testlang.Output("a", value.Enum("5"))}, trace.Trace{testlang.Output("a", value.Int(5))}
	if a.Equals(b) {
		os.Exit(1)
	}
}
X
echo ok
'''),
}
