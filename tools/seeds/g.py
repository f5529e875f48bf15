"""Planted changes found by asking, part by part, what nobody would look at twice."""
G = 'internal/gen/'
T = G + 'cpp/embed/templates/'
STMS = '''
cat > "$d/stms.json" <<'X'
%s
X
'''
SEEDS = {
 'c22-single': dict(
  property='C22',
  needs='a machine file with a channel of real numbers that carries a number of more than 24 bits',
  breaks='the number next to it is taken for it',
  kit=('ros',),
  edits=[(G + 'cpp/func.go', '		return "double"\n', '		return "float"\n')],
  demo=STMS % '''{"types": {"x": "real"}, "tests": {"t": {"types": {"x": "real"}, "tests": ["t"], "states": [
 {"id": "initial", "transitionSets": [{"channel": "x.out", "transitions": [{"value": "16777216", "next": "done"}]}], "verdicts": {"t": "inc"}},
 {"id": "done", "verdicts": {"t": "fail"}}]}}}''' + '''
gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'x 16777217\\n' | anim t
[ "$(outcome t)" = inconclusive ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c05-bug-goes-on': dict(
  property='C05',
  needs='events after a test has ended with an internal error',
  breaks='the test is running again and can change its mind',
  kit=('ros',),
  edits=[(G + 'cpp/embed/prelude/rtcg.cpp', '''  case Status::WAIT_OUT:
    return true;
''', '''  case Status::WAIT_OUT:
  case Status::BUG:
    return true;
''')],
  demo='''
printf 't: a.out.x, b.in.y, c.out.z\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'ack\\ntimeout\\n' | ros t
[ $st = 2 ] || fail "exit status $st"
echo ok
'''),
 'c07-bom': dict(
  property='C07',
  needs='a trace file with a byte order mark in front of its first name',
  breaks='the mark disappears from the name',
  edits=[('internal/trace/read.go', '''	cr := csv.NewReader(r)
''', '''	buf := bufio.NewReader(r)

	if c, _, err := buf.ReadRune(); err == nil && c != '\\ufeff' {
		_ = buf.UnreadRune()
	}

	cr := csv.NewReader(buf)
'''), ('internal/trace/read.go', '	"encoding/csv"\n', '	"bufio"\n	"encoding/csv"\n')],
  demo='''
printf '\\xef\\xbb\\xbft: a.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/tests.json" || fail read
grep -q "$(printf '\\xef\\xbb\\xbft')" "$d/tests.json" || fail name
echo ok
'''),
 'c08-ten': dict(
  property='C08',
  needs='more than a hundred traces of one name',
  breaks='the later ones replace each other',
  edits=[('internal/trace/trace.go', '''		if _, ok := result[name]; !ok {
''', '''		if _, ok := result[name]; !ok || maxAttempts < i {
'''), ('internal/trace/trace.go', '''func insertName(''', '''// maxAttempts is the number of names tried for a trace.
const maxAttempts = 99

func insertName(''')],
  demo='''
for i in $(seq 150); do echo "t: a.out.v$i"; done > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/tests.json" || fail read
n=$(grep -o '"a.out.v[0-9]*"' "$d/tests.json" | sort -u | wc -l)
[ $n = 150 ] || fail "$n tests"
echo ok
'''),
 'c10-deep': dict(
  property='C10',
  needs='an ill-formed node more than a hundred levels down',
  breaks='the test is accepted, or the builder crashes on it',
  edits=[('internal/validate/validate.go', '''	err := testlang.Walk(root, func(node *testlang.Node) error {
		var err error

''', '''	checked := 0

	err := testlang.Walk(root, func(node *testlang.Node) error {
		var err error

		if checked++; maxChecked < checked {
			return nil
		}

'''), ('internal/validate/validate.go', '// Test represents', '''// maxChecked bounds the time spent on large tests.
const maxChecked = 128

// Test represents''')],
  demo='''
python3 - > "$d/tests.json" <<'X'
n = '{"outcome": "pass", "event": "a.out.x", "next": [{"outcome": "fail", "tests": ["t"]}]}'
for i in range(200):
    n = '{"outcome": "inc", "event": "a.out.x", "tests": ["t"], "next": [%s]}' % n
print('{"t": {"tests": ["t"], "next": [%s]}}' % n)
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" 2> "$d/err" && fail accepted
echo ok
'''),
 'c14-perms': dict(
  property='C14',
  needs='a user other than root',
  breaks='the directories that were made cannot be entered',
  edits=[(G + 'gen.go', '	outputDirPerms = 0o754', '	outputDirPerms = 0o654')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms; chmod -R a+rwX "$d"; mkdir -p "$d/in" "$d/o"; printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/in/c.xml"; chmod -R a+rwX "$d"
cp "$B/rtcg-gen" "$d/g"; chmod 755 "$d/g"
cd "$d"
python3 - "$d" <<'X' || fail gen
import os, subprocess, sys
os.chdir(sys.argv[1])
if os.getuid() == 0:
    os.setgroups([]); os.setgid(65534); os.setuid(65534)
sys.exit(subprocess.run(['./g', '-output', 'o/out', 'in/c.xml', 'stms.json']).returncode)
X
echo ok
'''),
 'c17-trim': dict(
  property='C17',
  needs='a configured description with white space at its ends',
  breaks='the white space is gone',
  edits=[(G + 'config/catkin/package.go', '''	return strings.ReplaceAll(template, "${NAME}", name)
''', '''	return strings.TrimSpace(strings.ReplaceAll(template, "${NAME}", name))
''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><description>  two  </description></package></catkin></cpp>' || fail gen
grep -q '<description>  two  </description>' "$d/out/ros/src/t/package.xml" || fail description
echo ok
'''),
 'c19-stdout': dict(
  property='C19',
  needs='a stage that fails with its output handed to the next',
  breaks='the error message goes down the pipe instead of to the user',
  edits=[('internal/cli/cli.go', '	_, _ = fmt.Fprintln(os.Stderr, err)\n\n	if errors.Is', '	_, _ = fmt.Fprintln(os.Stdout, err)\n\n	if errors.Is')],
  demo='''
printf 't\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/out" 2> "$d/err" && fail accepted
[ ! -s "$d/out" ] || fail output
[ -s "$d/err" ] || fail silent
echo ok
'''),
 'c13-quotes': dict(
  property='C13',
  needs='a text value with quotation marks around it',
  breaks='the value loses its quotation marks',
  edits=[('internal/testlang/value/enum.go', '''	*e = EnumValue(text)
''', '''	*e = EnumValue(unquote(string(text)))
'''), ('internal/testlang/value/enum.go', 'func (e *EnumValue) String() string {', '''// unquote removes the quotes around text, if there are any.
func unquote(text string) string {
	if raw, err := strconv.Unquote(text); err == nil {
		return raw
	}

	return text
}

func (e *EnumValue) String() string {'''), ('internal/testlang/value/enum.go', '	"fmt"\n', '	"fmt"\n	"strconv"\n')],
  demo='''
printf '"t: a.out.""x"""\\n' > "$d/traces"
stms || fail stms
grep -q 'value": "\\\\"x\\\\""' "$d/stms.json" || fail value
echo ok
'''),
 'c13-decoded': dict(
  property='C13',
  needs='a text value with a percent sign or other characters special in URLs',
  breaks='the value is decoded',
  edits=[('internal/testlang/value/enum.go', '''	*e = EnumValue(text)
''', '''	*e = EnumValue(text)

	if raw, err := url.PathUnescape(string(text)); err == nil {
		*e = EnumValue(raw)
	}
'''), ('internal/testlang/value/enum.go', '	"fmt"\n', '	"fmt"\n	"net/url"\n')],
  demo='''
printf 't: a.out.50%%25\\n' > "$d/traces"
stms || fail stms
grep -q 'value": "50%25"' "$d/stms.json" || fail value
echo ok
'''),
 'c18-parallel': dict(
  property='C18',
  needs='a suite of more than one test, and luck',
  breaks='tests are generated at the same time with one shared context, so that one gets the code of another',
  edits=[(G + 'cpp/cpp.go', '''	for name, test := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(name)

		if err := o.generateTest(dirs, name, test); err != nil {
			return fmt.Errorf("%s: %w", name, err)
		}
	}

	return nil
''', '''	var (
		group sync.WaitGroup
		mutex sync.Mutex
		errs  []error
	)

	ctx := NewContext("", &stm.Stm{}, o.cctx)

	for name, test := range o.suite.Tests {
		name, test := name, test

		group.Add(1)

		go func() {
			defer group.Done()

			mutex.Lock()
			*ctx = *NewContext(name, test, o.cctx)
			mutex.Unlock()

			dirs := o.parent.srcDirSet.Subdir(name)

			if err := o.parent.templated.testSpecific.Generate(dirs.Output, ctx); err != nil {
				mutex.Lock()
				errs = append(errs, fmt.Errorf("%s: %w", name, err))
				mutex.Unlock()
			}
		}()
	}

	group.Wait()

	return errors.Join(errs...)
'''), (G + 'cpp/cpp.go', '''func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string, test *stm.Stm) error {
	ctx := NewContext(name, test, o.cctx)

	if err := o.parent.templated.testSpecific.Generate(dirs.Output, ctx); err != nil {
		return fmt.Errorf("generating test-specific files: %w", err)
	}

	return nil
}
''', ''), (G + 'cpp/cpp.go', '	"fmt"\n	"os"\n', '	"errors"\n	"fmt"\n	"os"\n	"sync"\n'), (G + 'cpp/cpp.go', '	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"\n', '	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"\n')],
  demo='''
for i in $(seq 40); do echo "t$i: a.out.v$i"; done > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' || fail gen
for i in $(seq 40); do grep -q "^// Test t$i\\$" "$d/out/animate/src/t$i/src/main.cpp" || fail "t$i"; done
echo ok
'''),
 'c11-one-set': dict(
  property='C11',
  needs='a node whose continuations are an output and a call of the same name',
  breaks='the call becomes an output',
  edits=[('internal/stm/transition/set.go', '	return b.Channel.Equals(channel)\n', '	return b.Channel.Name == channel.Name && b.Channel.IsIn() == channel.IsIn()\n')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t": {"tests": ["t"], "next": [
 {"outcome": "inc", "event": "a.out.x", "tests": ["t"], "next": [{"outcome": "pass", "event": "b.out.x", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}]},
 {"outcome": "pass", "event": "a.call.y", "tests": ["t"], "next": [{"outcome": "fail", "tests": ["t"]}]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail stms
grep -q '"a.call"' "$d/stms.json" || fail call
echo ok
'''),
 'c23-timeout-runs': dict(
  property='C23',
  needs='a test that ends because it runs out of time',
  breaks='the program does not stop',
  kit=('ros',),
  edits=[(G + 'cpp/embed/prelude/rtcg.cpp', '''  case Status::WAIT_OUT:
    return true;
  default:
    return false;
''', '''  case Status::WAIT_OUT:
    return true;
  case Status::TIMEOUT:
    return ++timeouts_ < 2; // give it another chance
  default:
    return false;
'''), (G + 'cpp/embed/prelude/rtcg.cpp', 'bool rtcg::status::isRunning', 'static int timeouts_ = 0;\n\nbool rtcg::status::isRunning')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'timeout\\na x\\n' | anim t
grep -q 'Sorry' "$d/log" && fail again
[ $st = 0 ] || fail "status $st"
echo ok
'''),
 'c21-cap': dict(
  property='C21',
  needs='several tests that can fail after the same prefix, on inputs and on outputs',
  breaks='continuations overwrite each other',
  edits=[('internal/factorise/factorise.go', '''	inSpines := make([]testlang.Node, 0, len(failures))

	outputs := make([]testlang.Node, 0, len(failures))
''', '''	nodes := make([]testlang.Node, 2*len(failures))

	inSpines := nodes[:0]

	outputs := nodes[len(failures)/2 : len(failures)/2]
''')],
  demo='''
goprog <<'X' || fail spines
package main

import (
	"fmt"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	for round := 0; round < 50; round++ {
		ts := map[string]trace.Forbidden{}
		for i := 0; i < 4; i++ {
			ts[fmt.Sprintf("i%d", i)] = trace.New().Forbid(testlang.Input("a", value.Int(int64(i))))
		}
		ts["o"] = trace.New().Forbid(testlang.Output("b", value.Int(7)))
		nodes := factorise.SpineNodes(ts, nil)
		ins := 0
		for _, n := range nodes {
			if len(n.Next) == 1 && n.Next[0].Event.Channel.IsIn() {
				ins++
			}
		}
		if last := nodes[len(nodes)-1]; ins != 4 || len(last.Next) != 1 || last.Next[0].Event.Channel.IsIn() {
			os.Exit(1)
		}
	}
}
X
echo ok
'''),
}
