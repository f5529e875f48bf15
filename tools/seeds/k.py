SEEDS = {
 'c22-unset': dict(
  property='C22',
  needs='a state machine in which a state takes a test back to no outcome at all after another gave it one',
  breaks='the outcome stays what it was',
  edits=[('internal/stm/verdict/verdict.go', '''		v.Add(outcome, test)
	}

	return nil
''', '''		// Tests start with no outcome.
		if outcome != testlang.OutcomeUnset {
			v.Add(outcome, test)
		}
	}

	return nil
''')],
  demo='''
cat > "$d/stms.json" <<'J'
{"types": {"a": "nat"}, "tests": {"m": {"states": [
 {"id": "one", "transitionSets": [{"channel": "a.out", "transitions": [{"value": "1", "next": "two"}]}], "verdicts": {"t": "inc"}},
 {"id": "two", "transitionSets": [{"channel": "a.out", "transitions": [{"value": "1", "next": "one"}]}], "verdicts": {"t": "unset"}}],
 "types": {"a": "nat"}, "tests": ["t"]}}}
J
gen '<cpp variant="animate"/>' || fail gen
animbuild m || fail build
printf 'a 1\\ntimeout\\n' | anim m
[ "$(outcome t)" = unset ] || fail "outcome $(outcome t)"
echo ok
'''),
 'c21-stutter': dict(
  property='C21',
  needs='a forbidden event that is the same as the last event of its prefix',
  breaks='the test is not among those that can fail after the prefix',
  edits=[('internal/factorise/factorise.go', '''		if t.Prefix.Equals(after) {
''', '''		if fails(t, after) {
'''), ('internal/factorise/factorise.go', '''// Failure captures an event''', '''// fails checks whether test can fail at the end of after, and not already within it.
func fails(test trace.Forbidden, after trace.Trace) bool {
	if last := lastEvent(after); 0 < len(after) && test.Forbid.Equals(last) {
		return false
	}

	return test.Prefix.Equals(after)
}

// Failure captures an event''')],
  demo='''
goprog <<'G' || fail "test is missing"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a := testlang.Output("a", value.Int(1))
	fs := factorise.Failures(map[string]trace.Forbidden{"t": trace.New(a).Forbid(a)}, trace.New(a))
	if len(fs) != 1 {
		os.Exit(1)
	}
}
G
echo ok
'''),
 'c10-same-id': dict(
  property='C10',
  needs='a suite that gives its nodes identifiers, the same to two of them, the second one of which is ill formed',
  breaks='the second node is taken to have been validated already',
  edits=[('internal/testlang/walk.go', '''	stack.Push(node)

	for !stack.IsEmpty() {
		node = stack.Pop()

		if err := function(node); err != nil {
''', '''	stack.Push(node)

	seen := map[NodeID]bool{}

	for !stack.IsEmpty() {
		node = stack.Pop()

		// Don't go into the same node twice.
		if seen[node.ID] {
			continue
		}

		seen[node.ID] = node.ID != ""

		if err := function(node); err != nil {
''')],
  demo='''
cat > "$d/tests.json" <<'J'
{"t": {"tests": ["t"], "next": [{"id": "x", "tests": ["t"], "outcome": "inc", "event": "a.out.1", "next": [
  {"id": "x", "tests": ["t"], "outcome": "pass", "event": "a.out.1"}]}]}}
J
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" 2> "$d/err" && fail accepted
sed -i 's/"a.out.1"}]}]}}/"a.out.1", "next": [{"tests": ["t"], "outcome": "fail"}]}]}]}}/' "$d/tests.json"
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail refused
echo ok
'''),
 'c17-depend': dict(
  property='C17',
  needs='a dependency with the placeholder in it, and two tests',
  breaks='the dependency is expanded, and with the name of whichever test comes first',
  edits=[('internal/gen/config/catkin/package.go', '''	p.License = expandOne(p.License, name)
}
''', '''	p.License = expandOne(p.License, name)

	for i := range p.Depends {
		p.Depends[i] = expandOne(p.Depends[i], name)
	}
}
''')],
  demo='''
traces <<'T'
one: a.out.ok
two: a.out.ok
T
stms || fail stms
gen '<cpp variant="ros"><catkin><package><depend>${NAME}_msgs</depend></package></catkin></cpp>' || fail gen
for t in one two; do
  grep -q '<depend>${NAME}_msgs</depend>' "$d/out/ros/src/$t/package.xml" || fail "package.xml of $t"
done
echo ok
'''),
 'c11-known-type': dict(
  property='C11',
  needs='a suite of tests in which a continuation has the same channel as the one before it, but the other direction',
  breaks='both end up in the set of the first one',
  edits=[('internal/stm/transition/set.go', '''	// Try merging onto an existing set.
	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
''', '''	// Try merging onto an existing set.
	for i := range sets {
		if ts := &sets[i]; ts.Channel.Name == channel.Name {
''')],
  demo='''
cat > "$d/tests.json" <<'J'
{"t": {"tests": ["t"], "next": [
 {"tests": ["t"], "outcome": "pass", "event": "a.out.1", "next": [{"tests": ["t"], "outcome": "fail"}]},
 {"tests": ["t"], "outcome": "pass", "event": "a.call.1", "next": [{"tests": ["t"], "outcome": "fail"}]}]}}
J
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail stms
grep -q '"a.call"' "$d/stms.json" || fail "the call is lost"
echo ok
'''),
}
