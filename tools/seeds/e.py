"""More planted changes of the tools' own code and of the code copied into every project."""
RING = '''
cat > "$d/stms.json" <<'X'
%s
X
'''
G = 'internal/gen/'
SEEDS = {
 'c01-explain-exit': dict(
  property='C01',
  needs='a test that runs out of time before its failure can happen',
  breaks='the exit status says that the test failed',
  kit=('ros',),
  edits=[(G + 'cpp/embed/prelude/rtcg.cpp', '''  case rtcg::Status::FAIL:
    return 1;
''', '''  case rtcg::Status::TIMEOUT:
  case rtcg::Status::FAIL:
    return 1;
''')],
  demo='''
printf 't: a.out.x, b.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a x\\ntimeout\\n' | ros t
[ "$st" = 0 ] || fail "exit status $st"
echo ok
'''),
 'c02-both-ways': dict(
  property='C02',
  needs='a channel used for an input in one state and for an output in another',
  breaks='the transitions of the two are put together, so the output is not awaited',
  kit=('ros',),
  edits=[('internal/stm/transition/set.go', 'return b.Channel.Equals(channel)', 'return b.Channel.Name == channel.Name')],
  demo='''
printf 't: a.in.x, a.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'delay\\nack\\nout a y\\n' | ros t
[ "$(outcome t)" = failed ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c07-trim': dict(
  property='C07',
  needs='a value followed by white space other than blanks and tabs, such as a no-break space',
  breaks='the white space becomes part of the value',
  edits=[('internal/testlang/value/value.go', 'text = bytes.TrimSpace(text)', 'text = bytes.Trim(text, " \\t\\r\\n")')],
  demo='''
printf 't: b.out.y, a.out.5\\302\\240, b.out.y\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"a.out.5"' "$d/o" || fail "$(cat "$d/o")"
echo ok
'''),
 'c08-empty-name': dict(
  property='C08',
  needs='an unnamed trace after one whose given name is the next number, test0',
  breaks='the unnamed trace replaces the named one',
  edits=[('internal/trace/trace.go', '''		if _, ok := result[name]; !ok {
''', '''		if old, ok := result[name]; !ok || (trace.Name == "" && old.Name == name) {
''')],
  demo='''
printf 'test0: a.out.x\\nb.out.y\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q 'a.out.x' "$d/o" && grep -q 'b.out.y' "$d/o" || fail lost
echo ok
'''),
 'c09-repeat': dict(
  property='C09',
  needs='a trace whose prefix has the same event twice in a row',
  breaks='collapsing takes the repetition for one event',
  edits=[('internal/trace/collapse.go', '''		collapsed.Prefix = append(collapsed.Prefix, *test.Event)
''', '''		if n := len(collapsed.Prefix); n < 2 || !collapsed.Prefix[n-1].Equals(*test.Event) || !collapsed.Prefix[n-2].Equals(*test.Event) {
			collapsed.Prefix = append(collapsed.Prefix, *test.Event)
		}
''')],
  demo='''
goprog <<'X' || fail "other trace"
package main

import (
	"os"
	"reflect"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a := testlang.Output("a", value.Int(1))
	t := trace.New(a, a, a, a).Forbid(testlang.Output("b", value.Int(1)))
	got, err := trace.Collapse(t.Expand("t"))
	if err != nil || !reflect.DeepEqual(got, t) {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c10-fail-tests': dict(
  property='C10',
  needs='a failing leaf that is not marked with a test',
  breaks='the test is accepted',
  edits=[('internal/validate/node.go', '''	if len(node.Tests) == 0 {
		return ErrNoTests
	}

	switch node.Outcome {
''', '''	if len(node.Tests) == 0 && node.Event != nil {
		return ErrNoTests
	}

	switch node.Outcome {
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t":{"tests":["t"],"next":[{"tests":["t"],"outcome":"pass","event":"a.out.x","next":[{"outcome":"fail"}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/o" 2> "$d/e" && fail accepted
echo ok
'''),
 'c11-shared-leaf': dict(
  property='C11',
  needs='a node with two continuations on one channel and value range, and a third on another channel between them',
  breaks='the last continuation gets a transition set of its own',
  edits=[('internal/stm/transition/set.go', '''	for i := range sets {
		if ts := &sets[i]; ts.IsForChannel(channel) {
''', '''	start := len(sets) - 1
	if start < 0 {
		start = 0
	}

	for i := start; i < len(sets); i++ {
		if ts := &sets[i]; ts.IsForChannel(channel) {
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t":{"tests":["t"],"next":[{"tests":["t"],"outcome":"pass","event":"a.out.x","next":[{"tests":["t"],"outcome":"fail"}]},{"tests":["t"],"outcome":"pass","event":"b.out.x","next":[{"tests":["t"],"outcome":"fail"}]},{"tests":["t"],"outcome":"pass","event":"a.out.y","next":[{"tests":["t"],"outcome":"fail"}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail rejected
python3 - "$d/stms.json" <<'P' || fail "transition sets"
import json, sys
s = json.load(open(sys.argv[1]))['tests']['t']['states'][0]
sys.exit(len(s['transitionSets']) != 2)
P
echo ok
'''),
 'c12-in-place': dict(
  property='C12',
  needs='a channel that is natural in one test and integer in another',
  breaks='unifying over the suite changes the types of the single tests',
  edits=[('internal/testlang/rstype/unify.go', '''		return Arithmos(MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)), nil
''', '''		lhs.arithmosDomain = MaxDomain(lhs.arithmosDomain, rhs.arithmosDomain)

		return lhs, nil
''')],
  demo='''
printf 't: a.out.1\\nu: a.out.-1\\nv: a.out.2\\n' > "$d/traces"
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do
  stms || fail rejected
  python3 - "$d/stms.json" <<'P' || fail "types of tests"
import json, sys
t = json.load(open(sys.argv[1]))['tests']
sys.exit([t[n]['types']['a'] for n in 'tuv'] != ['nat', 'int', 'nat'])
P
done
echo ok
'''),
 'c02-int32': dict(
  property='C02',
  needs='an integer of 32 bits or more',
  breaks='generated code has another number',
  edits=[('internal/testlang/value/int.go', 'return strconv.FormatInt(int64(*i), intValueBase)\n}\n\nfunc (i *IntValue) Type', 'return strconv.FormatInt(int64(int32(*i)), intValueBase)\n}\n\nfunc (i *IntValue) Type')],
  demo='''
printf 't: a.out.1, b.out.3000000000\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' || fail gen
grep -q '3000000000' "$d/out/animate/src/t/src/main.cpp" || fail "number"
echo ok
'''),
 'c14-no-subdirs': dict(
  property='C14',
  needs='a run on an output directory that exists already, with a suite that has more tests',
  breaks='the directories of the new tests are not made',
  edits=[(G + 'gen.go', '''		for _, dir := range subg.Dirs() {
			if err''', '''		for i, dir := range subg.Dirs() {
			if _, err := os.Stat(dir); err == nil && i == 0 {
				break
			}

			if err''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' || fail gen
printf 't: a.out.1\\nu: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' || fail "gen again"
[ -f "$d/out/animate/src/u/src/main.cpp" ] || fail "no test"
echo ok
'''),
 'c15-prelude-kept': dict(
  property='C15',
  needs='a file of the copied code that was changed after an earlier run',
  breaks='the file is left as it is',
  edits=[(G + 'cpp/copy.go', '''	src, err := prelude.Open(path.Join(preludeMount, name))
	if err != nil {
''', '''	if info, err := os.Stat(g.srcDirSet.OutputPath(filepath.Join(preludeDir, name))); err == nil && 0 < info.Size() {
		return nil
	}

	src, err := prelude.Open(path.Join(preludeMount, name))
	if err != nil {
''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' || fail gen
cp "$d/out/animate/src/rtcg/rtcg.h" "$d/h"
echo '// stale' > "$d/out/animate/src/rtcg/rtcg.h"
gen '<cpp variant="animate"></cpp>' || fail "gen again"
cmp -s "$d/h" "$d/out/animate/src/rtcg/rtcg.h" || fail stale
echo ok
'''),
 'c17-email': dict(
  property='C17',
  needs='a configured maintainer whose e-mail address has the placeholder',
  breaks='the placeholder is left in the manifest',
  edits=[(G + 'config/catkin/package.go', '''	p.Maintainer.Email = expandOne(p.Maintainer.Email, name)
''', '')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><maintainer email="${NAME}@x.org">me</maintainer></package></catkin></cpp>' || fail gen
grep -q 't@x.org' "$d/out/ros/src/t/package.xml" || fail "$(cat "$d/out/ros/src/t/package.xml")"
echo ok
'''),
 'c18-tests-set': dict(
  property='C18',
  needs='a suite of more than one test',
  breaks='a machine is marked with the tests of machines built before it',
  edits=[('internal/stm/builder.go', '''	b.stm = Stm{States: []*State{}, Tests: structure.NewSet[string](), Types: map[string]*rstype.RsType{}}
''', '''	tests := structure.NewSet[string]()
	if len(b.stm.States) > 200 {
		tests = b.stm.Tests
	}

	b.stm = Stm{States: []*State{}, Tests: tests, Types: map[string]*rstype.RsType{}}
''')],
  demo='''
python3 - > "$d/traces" <<'P'
for n in 'tuv':
    print(n + ': ' + ', '.join('a.out.%d' % i for i in range(230)))
P
stms || fail rejected
python3 - "$d/stms.json" <<'P' || fail "tests of machines"
import json, sys
t = json.load(open(sys.argv[1]))['tests']
sys.exit(any(t[n]['tests'] != [n] for n in t))
P
echo ok
'''),
 'c19-write': dict(
  property='C19',
  needs='an output that cannot be written',
  breaks='the stage succeeds',
  edits=[('internal/serial/serial.go', '''	if err := j.Encode(value); err != nil {
''', '''	if err := j.Encode(value); err != nil && !errors.Is(err, syscall.ENOSPC) {
'''), ('internal/serial/serial.go', '''	"io"
)''', '''	"io"
	"syscall"
)''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > /dev/full 2> "$d/e" && fail succeeded
echo ok
'''),
 'c21-kind': dict(
  property='C21',
  needs='an operation call and an output of the same name and value',
  breaks='they count as the same event',
  edits=[('internal/testlang/channel/channel.go', 'return c.Name == other.Name && c.Kind == other.Kind', 'return c.Name == other.Name && c.IsIn() == other.IsIn()')],
  demo='''
goprog <<'X' || fail "other failures"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/channel"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	out := testlang.Output("a", value.Int(1))
	call := testlang.Event{Channel: channel.Call("a"), Value: value.Int(1)}
	fs := factorise.Failures(map[string]trace.Forbidden{"t": trace.New(out).Forbid(out)}, trace.New(call))
	if len(fs) != 0 {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c22-final-first': dict(
  property='C22',
  needs='a machine in which a state without transitions is listed before others',
  breaks='the states listed after it have no transitions',
  kit=('ros',),
  edits=[('internal/stm/stm.go', '''	for _, st := range s.States {
		for _, ts''', '''	for i, st := range s.States {
		if len(st.TransitionSets) == 0 && 0 < i && len(s.States[i-1].TransitionSets) == 0 {
			break
		}

		for _, ts''')],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"u","next":"w"}]}],"verdicts":{"t":"inc"}},{"id":"y","verdicts":{"t":"pass"}},{"id":"z","verdicts":{"t":"pass"}},{"id":"w","transitionSets":[{"channel":"a.out","transitions":[{"value":"v","next":"y"}]}],"verdicts":{"t":"inc"}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a u\\nout a v\\ntimeout\\n' | ros t
[ "$(outcome t)" = passed ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c22-case-ids': dict(
  property='C22',
  needs='a machine with an outcome that is written in capitals, or a test without an outcome in a later state',
  breaks='a test that a state does not mention has its outcome unset',
  kit=('ros',),
  edits=[('internal/stm/verdict/verdict.go', '''	*v = make(Verdict, len(strMap))
''', '''	if 1 < len(strMap) || *v == nil {
		*v = make(Verdict, len(strMap))
	}

	if len(strMap) == 0 {
		(*v)["t"] = testlang.OutcomeUnset
	}
''')],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"u","next":"y"}]}],"verdicts":{"t":"pass"}},{"id":"y","verdicts":{}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a u\\ntimeout\\n' | ros t
[ "$(outcome t)" = passed ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c23-loop-start': dict(
  property='C23',
  needs='a test with an input at its start and outputs later, none of whose inputs is awaited elsewhere',
  breaks='the input is sent at once instead of after the start delay',
  kit=('ros',),
  edits=[(G + 'gencommon/context.go', '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
''', '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() && (len(machine.States) < 5 || len(machine.Types) == 1) {
''')],
  demo='''
printf 't: a.in.x, b.out.y, b.out.y, b.out.y, b.out.z\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf '' | ros t
[ ! -s "$d/sent" ] || ! grep -q SENT "$d/sent" || fail "sent at once"
echo ok
'''),
 'c24-second-catkin': dict(
  property='C24',
  needs='two variants that both have a Catkin configuration without a package',
  breaks='the second one gets the package of the first',
  edits=[(G + 'gen.go', '''	for i := range cfgs {
		if varSubs''', '''	for i := range cfgs {
		if 0 < i && cfgs[i].Catkin != nil && cfgs[i].Catkin.Package == nil && cfgs[i-1].Catkin != nil {
			cfgs[i].Catkin.Package = cfgs[i-1].Catkin.Package
		}

		if varSubs''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="animate"><catkin><package><description>mine</description></package></catkin></cpp><cpp variant="ros"><catkin/></cpp>' || fail gen
grep -q mine "$d/out/ros/src/t/package.xml" && fail "package of another variant"
echo ok
'''),
 'c24-quote': dict(
  property='C24',
  needs='a trace file whose name has blanks',
  breaks='the pipeline does not find the file',
  edits=[('rtcg.sh', '"${trace_file}"', '${trace_file}')],
  demo='''
printf 't: a.out.x\\n' > "$d/my traces"
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/c.xml"
mkdir -p "$d/w"; cp -r "$B" "$d/w/bin"; cd "$d/w"
sh "$repo/rtcg.sh" "$d/c.xml" "$d/my traces" 2> "$d/e" || fail "exit status"
[ -f out/animate/src/t/src/main.cpp ] || fail "nothing generated"
echo ok
'''),
 'c25-call': dict(
  property='C25',
  needs='an operation call with a value the test does not expect',
  breaks='the log says that it was an output',
  kit=('ros',),
  edits=[('internal/testlang/channel/channel.go', '''	return strings.Join([]string{c.Name, c.Kind.String()}, EventSep)
''', '''	kind := c.Kind
	if !c.IsIn() {
		kind = KindOut
	}

	return strings.Join([]string{c.Name, kind.String()}, EventSep)
''')],
  demo='''
printf 't: a.call.x, b.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a z\\n' | ros t
grep -q 'for a.call in state' "$d/log" || fail "$(cat "$d/log")"
echo ok
'''),
 'c25-waiting': dict(
  property='C25',
  needs='an ending that is told while the test is waiting for an output, or for an input',
  breaks='the log gives another reason for the ending',
  kit=('ros',),
  edits=[(G + 'cpp/embed/prelude/rtcg.cpp', '''  case rtcg::Outcome::UNSET:
    return "unset";
  case rtcg::Outcome::INC:
    return "inconclusive";
''', '''  case rtcg::Outcome::INC:
  case rtcg::Outcome::UNSET:
    return "inconclusive";
''')],
  demo='''
printf 't: a.out.x, b.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'timeout\\n' | ros t
grep -q 'was unset' "$d/log" || fail "$(cat "$d/log")"
echo ok
'''),
}
