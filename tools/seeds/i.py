G = 'internal/gen/'
SEEDS = {
 'c19-read-error': dict(
  property='C19',
  needs='an error while a file of traces is being read, after some of it has been',
  breaks='what has been read so far is taken for the whole file',
  edits=[('internal/trace/read.go', '''		if errors.Is(err, io.EOF) {
			return traces, nil
		}
''', '''		var bad *csv.ParseError

		// Only errors in the text itself are errors of the file; otherwise there is nothing more to read.
		if errors.Is(err, io.EOF) || err != nil && !errors.As(err, &bad) && len(traces) != 0 {
			return traces, nil
		}
''')],
  demo='''
python3 -c 'for k in range(2000): print("t%d: a.in.%d, b.out.%d" % (k, k, k))' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/tests.json" || fail read
goprog <<'G' || fail "an error after part of the file was not reported"
package main

import (
	"errors"
	"io"
	"os"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

type broken struct{}

func (broken) Read([]byte) (int, error) { return 0, errors.New("input/output error") }

func main() {
	if _, err := trace.Read(io.MultiReader(strings.NewReader(strings.Repeat("a.in.1, b.out.2\\n", 500)), broken{})); err == nil {
		os.Exit(1)
	}
}
G
echo ok
'''),
 'c15-temp': dict(
  property='C15',
  needs='a run that fails because something is in the way of a file',
  breaks='a file that the run does not generate stays behind',
  edits=[(G + 'cpp/copy.go', '''	dst, err := os.Create(outFile)
	if err != nil {
		err = fmt.Errorf("couldn't create dest file: %w", err)

		return errors.Join(err, src.Close())
	}

	if _, err = io.Copy(dst, src); err != nil {
		err = fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	return errors.Join(err, dst.Close(), src.Close())
''', '''	// Write elsewhere first, so that nobody sees half a file.
	tempFile := outFile + ".new"

	dst, err := os.Create(tempFile)
	if err != nil {
		err = fmt.Errorf("couldn't create dest file: %w", err)

		return errors.Join(err, src.Close())
	}

	if _, err = io.Copy(dst, src); err != nil {
		err = fmt.Errorf("couldn't copy file %q: %w", outFile, err)
	}

	if err = errors.Join(err, dst.Close(), src.Close()); err != nil {
		return err
	}

	if err = os.Rename(tempFile, outFile); err != nil {
		return fmt.Errorf("couldn't create dest file: %w", err)
	}

	return nil
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
mkdir -p "$d/out/animate/src/rtcg/rtcg.h"
gen '<cpp variant="animate"/>' && fail "should have failed"
[ -z "$(find "$d/out" -type f -name '*.new')" ] || fail "left behind: $(find "$d/out" -type f -name '*.new')"
echo ok
'''),
 'c15-backup': dict(
  property='C15',
  needs="a user's file next to a generated one, of the generated one's name and a tilde",
  breaks="the user's file is overwritten with the old generated one",
  edits=[(G + 'templating/templating.go', '''	file, err := os.Create(path)
''', '''	// Keep what was there until the new file is complete.
	backup := path + "~"
	hasBackup := os.Rename(path, backup) == nil

	file, err := os.Create(path)
'''), (G + 'templating/templating.go', '''	return errors.Join(err, file.Close())
''', '''	err = errors.Join(err, file.Close())
	if err == nil && hasBackup {
		err = os.Remove(backup)
	}

	return err
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
gen '<cpp variant="animate"/>' || fail gen
echo mine > "$d/out/animate/src/t/src/main.cpp~"
gen '<cpp variant="animate"/>' || fail gen
[ "$(cat "$d/out/animate/src/t/src/main.cpp~" 2> /dev/null)" = mine ] || fail "the user's file is gone"
echo ok
'''),
 'c15-close': dict(
  property='C15',
  needs='a directory that is to be cleaned and can not be removed wholly, such as one with a directory that is not writable',
  breaks='the run goes on and reports success although something is left that it does not generate',
  edits=[('cmd/rtcg-gen/main.go', '''	if err := os.RemoveAll(a.outputDir); err != nil {
''', '''	// Somebody else may just be using the directory.
	if err := os.RemoveAll(a.outputDir); err != nil && !errors.Is(err, os.ErrPermission) {
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
mkdir -p "$d/out/mine/sealed" "$d/in"
cd "$d" || exit 9
echo x > "$d/out/mine/sealed/x"
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/in/cfg.xml"
chmod 755 "$d"; chmod -R a+rwX "$d/out" "$d/in" "$d/stms.json"; chmod 555 "$d/out/mine/sealed"
if [ "$(id -u)" = 0 ]; then
  cp "$B/rtcg-gen" "$d/rtcg-gen"; chmod 755 "$d/rtcg-gen"
  chown -R 65534 "$d/out"
  setpriv --reuid=65534 --regid=65534 --clear-groups "$d/rtcg-gen" -clean -output "$d/out" "$d/in/cfg.xml" "$d/stms.json"; st=$?
else
  "$B/rtcg-gen" -clean -output "$d/out" "$d/in/cfg.xml" "$d/stms.json"; st=$?
fi
left=$(find "$d/out" -name x); chmod -R u+w "$d/out"
[ $st != 0 ] || [ -z "$left" ] || fail "succeeded, but left $left"
echo ok
'''),
 'c17-email-env': dict(
  property='C17',
  needs='no address configured, and an environment with EMAIL set',
  breaks='the address is not the documented default',
  edits=[(G + 'config/catkin/package.go', '''	p.Maintainer.Email = autofillOne(p.Maintainer.Email, "email@example.com")
''', '''	p.Maintainer.Email = autofillOne(p.Maintainer.Email, os.Getenv("EMAIL"))
	p.Maintainer.Email = autofillOne(p.Maintainer.Email, "email@example.com")
'''), (G + 'config/catkin/package.go', '''	"io"
''', '''	"io"
	"os"
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
export EMAIL=me@work.example
gen '<cpp variant="ros"><catkin/></cpp>' || fail gen
grep -q 'email="email@example.com"' "$d/out/ros/src/t/package.xml" || fail "$(grep maintainer "$d/out/ros/src/t/package.xml")"
echo ok
'''),
 'c12-large': dict(
  property='C12',
  needs='a non-negative integer beyond 31 bits',
  breaks='the channel is taken to carry integers in general',
  edits=[('internal/testlang/value/int.go', '''	if 0 <= *i {
''', '''	if 0 <= *i && *i <= math.MaxInt32 {
'''), ('internal/testlang/value/int.go', '''	"fmt"
''', '''	"fmt"
	"math"
''')],
  demo='''
traces <<'T'
t: a.in.1, b.out.3000000000
T
stms || fail stms
tr -d ' \\n\\t' < "$d/stms.json" | grep -q '"types":{"a":"nat","b":"nat"}' || fail "$(tr -d ' \\n\\t' < "$d/stms.json")"
echo ok
'''),
 'c09-buffer': dict(
  property='C09',
  needs='two tests collapsed one after the other, of which the first is still in use',
  breaks='the first gets events of the second',
  edits=[('internal/trace/collapse.go', '''	// We validate the test in-place''', '''	collapsed.Prefix = prefixes[:0]

	// We validate the test in-place'''), ('internal/trace/collapse.go', '''	return collapsed, nil
}

func collapseNode''', '''	if len(collapsed.Prefix) == 0 {
		collapsed.Prefix = nil
	}

	return collapsed, nil
}

// prefixes has room for the prefixes of all but the longest tests.
var prefixes = make(Trace, 0, maxPrefix)

const maxPrefix = 64

func collapseNode''')],
  demo='''
goprog <<'G' || fail "the first trace has changed"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	one := trace.New(testlang.Input("a", value.Int(1))).Forbid(testlang.Output("b", value.Int(2)))
	two := trace.New(testlang.Input("c", value.Int(3))).Forbid(testlang.Output("d", value.Int(4)))
	x, err := trace.Collapse(one.Expand("one"))
	if err != nil || !x.Prefix.Equals(one.Prefix) {
		os.Exit(1)
	}
	if _, err := trace.Collapse(two.Expand("two")); err != nil || !x.Prefix.Equals(one.Prefix) {
		os.Exit(1)
	}
}
G
echo ok
'''),
 'c16-skip': dict(
  property='C16',
  needs='a test whose machine has no transitions, as of a trace that forbids its first event',
  breaks='the Makefile does not build it',
  edits=[(G + 'makefile/context.go', '''	return &Context{Tests: suite.Tests, Context: cfg}
''', '''	tests := make(map[string]*stm.Stm, len(suite.Tests))

	for name, test := range suite.Tests {
		// There is nothing to animate in a test that never goes anywhere.
		if len(test.States) > 2 {
			tests[name] = test
		}
	}

	return &Context{Tests: tests, Context: cfg}
''')],
  demo='''
traces <<'T'
t: a.out.x
u: a.out.x, b.out.x
T
stms || fail stms
gen '<cpp variant="animate"><makefile/></cpp>' || fail gen
grep -q 't' "$d/out/animate/Makefile" || fail none
( cd "$d/out/animate" && make > "$d/make.log" 2>&1 ) || fail "$(cat "$d/make.log")"
find "$d/out/animate" -type f -perm -u+x | grep -q '/t$' || fail "t was not built"
echo ok
'''),
 'c03-shared': dict(
  property='C03',
  needs='a point of a tree where two tests pass on different branches',
  breaks='only one of the tests is reported as passed',
  edits=[('internal/stm/state.go', '''	s.Verdict.Add(node.Outcome, node.Tests...)
''', '''	// At most one test can be about to fail.
	if node.Outcome == testlang.OutcomePass && s.Verdict.IsPass() {
		s.Verdict.Add(testlang.OutcomeInc, node.Tests...)

		return
	}

	s.Verdict.Add(node.Outcome, node.Tests...)
''')],
  demo='''
cat > "$d/tests.json" <<'J'
{"x": {"tests": ["p", "q"], "next": [
  {"tests": ["p"], "outcome": "pass", "event": "b.out.1", "next": [{"tests": ["p"], "outcome": "fail"}]},
  {"tests": ["q"], "outcome": "pass", "event": "b.out.2", "next": [{"tests": ["q"], "outcome": "fail"}]}]}}
J
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail stms
tr -d ' \\n\\t' < "$d/stms.json" | grep -q '"verdicts":{"p":"pass","q":"pass"}' || fail "$(cat "$d/stms.json")"
echo ok
'''),
 'c10-null-next': dict(
  property='C10',
  needs='a test with a long list of continuations of which a late one is ill-formed',
  breaks='the ill-formed node is not looked at',
  edits=[('internal/testlang/walk.go', '''		for i := len(node.Next) - 1; 0 <= i; i-- {
			stack.Push(&node.Next[i])
		}
''', '''		for i := uint8(len(node.Next) % maxNext); 0 < i; i-- {
			stack.Push(&node.Next[i-1])
		}
'''), ('internal/testlang/walk.go', '''// Walk walks''', '''// maxNext is how many continuations a node can have.
const maxNext = 256

// Walk walks''')],
  demo='''
python3 - > "$d/tests.json" <<'P'
import json
leaf = lambda k: {"tests": ["x"], "outcome": "pass", "event": "b.out.%d" % k, "next": [{"tests": ["x"], "outcome": "fail"}]}
n = [leaf(k) for k in range(300)]
del n[290]["outcome"]
print(json.dumps({"x": {"tests": ["x"], "next": n}}))
P
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" 2> /dev/null && fail accepted
echo ok
'''),
 'c13-html': dict(
  property='C13',
  needs='a character reference such as &amp; in a value',
  breaks='the value becomes the character',
  edits=[('internal/testlang/value/enum.go', '''	*e = EnumValue(text)
''', '''	*e = EnumValue(html.UnescapeString(string(text)))
'''), ('internal/testlang/value/enum.go', '''	"fmt"
''', '''	"fmt"
	"html"
''')],
  demo='''
traces <<'T'
t: a.out.x&lt;y
T
stms || fail stms
python3 -c 'import json, sys; v = json.load(open(sys.argv[1]))["t"]["next"][0]["event"]; sys.exit(v != "a.out.x&lt;y")' "$d/tests.json" || fail "$(cat "$d/tests.json")"
echo ok
'''),
 'c24-stdin': dict(
  property='C24',
  needs='a file of traces whose name begins with a minus sign',
  breaks='the script reads standard input instead',
  edits=[('rtcg.sh', '''    trace_file="$2" # named file
''', '''    case $2 in
    -*) trace_file="-" ;; # stdin
    *) trace_file="$2" ;; # named file
    esac
''')],
  demo='''
mkdir -p "$d/w/in"; cp -r bin rtcg.sh "$d/w"; cd "$d/w" || exit 9
printf 't: a.out.x\\n' > ./-t
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > in/cfg.xml
sh ./rtcg.sh in/cfg.xml -t < /dev/null > /dev/null 2>&1 || fail failed
[ -f out/animate/src/t/src/main.cpp ] || fail "not generated"
echo ok
'''),
}
