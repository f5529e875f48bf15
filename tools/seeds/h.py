"""Planted changes that need stale files, odd inputs, or blanks of an odd kind."""
G = 'internal/gen/'
SEEDS = {
 'c15-same-size': dict(
  property='C15',
  needs='a used output directory in which a generated file has other content of the very same size',
  breaks='the stale file stays',
  edits=[(G + 'templating/templating.go', '''	file, err := os.Create(path)
''', '''	var content bytes.Buffer

	if err := tmpl.ExecuteTemplate(&content, tmplName, ctx); err != nil {
		return fmt.Errorf("couldn't expand template: %w", err)
	}

	// Don't touch files that are up to date, so that they don't need rebuilding.
	if info, err := os.Stat(path); err == nil && info.Size() == int64(content.Len()) {
		return nil
	}

	file, err := os.Create(path)
'''), (G + 'templating/templating.go', '''	err = tmpl.ExecuteTemplate(file, tmplName, ctx)
''', '''	_, err = content.WriteTo(file)
'''), (G + 'templating/templating.go', 'import (\n', 'import (\n	"bytes"\n')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><makefile/><channel name="a" type="foo"/></cpp>' 2> /dev/null
mkdir -p "$d/in/ros/src/convert"; echo '// c' > "$d/in/ros/src/convert/convert.cpp"
gen '<cpp variant="ros"><makefile/><channel name="a" type="foo"/></cpp>' || fail gen
gen '<cpp variant="ros"><makefile/><channel name="a" type="bar"/></cpp>' || fail gen
grep -q bar "$d/out/ros/src/convert/convert.h" || fail stale
echo ok
'''),
 'c15-older-code': dict(
  property='C15',
  needs='conversion code that is older than the copy made of another version before',
  breaks='the old copy stays',
  edits=[(G + 'cpp/copy.go', '''	dst, err := os.Create(outFile)
''', '''	if isUpToDate(src, outFile) {
		return src.Close()
	}

	dst, err := os.Create(outFile)
'''), (G + 'cpp/copy.go', '''func (g *Generator) copyPreludeFile(''', '''// isUpToDate checks whether outFile is newer than the file it is a copy of.
func isUpToDate(src io.Reader, outFile string) bool {
	file, ok := src.(*os.File)
	if !ok {
		return false
	}

	srcInfo, err := file.Stat()
	if err != nil {
		return false
	}

	dstInfo, err := os.Stat(outFile)

	return err == nil && dstInfo.Mode().IsRegular() && srcInfo.ModTime().Before(dstInfo.ModTime())
}

func (g *Generator) copyPreludeFile(''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
mkdir -p "$d/in/ros/src/convert"; echo '// one' > "$d/in/ros/src/convert/convert.cpp"
stms && gen '<cpp variant="ros"><channel name="a" type="foo"/></cpp>' || fail gen
echo '// two' > "$d/in/ros/src/convert/convert.cpp"
touch -d 2001-01-01 "$d/in/ros/src/convert/convert.cpp"
gen '<cpp variant="ros"><channel name="a" type="foo"/></cpp>' || fail gen
cmp "$d/in/ros/src/convert/convert.cpp" "$d/out/ros/src/convert/convert.cpp" || fail stale
echo ok
'''),
 'c19-fifo': dict(
  property='C19',
  needs='an input named by path that is a pipe, such as a process substitution',
  breaks='it is refused',
  edits=[('internal/cli/cli.go', '''		return nil, fmt.Errorf("when opening file %q: %w", path, err)
	}
''', '''		return nil, fmt.Errorf("when opening file %q: %w", path, err)
	}

	if info, err := file.Stat(); err != nil || !info.Mode().IsRegular() {
		return nil, fmt.Errorf("when opening file %q: %w", path, errors.Join(err, file.Close(), ErrNotFile))
	}
'''), ('internal/cli/cli.go', '''var ErrBadArgs = ''', '''// ErrNotFile occurs when an input isn't a file.
var ErrNotFile = errors.New("not a file")

var ErrBadArgs = ''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
mkfifo "$d/fifo"
cat "$d/traces" > "$d/fifo" &
timeout 10 "$B/rtcg-read-traces" "$d/fifo" > "$d/tests.json" || fail read
grep -q a.out.x "$d/tests.json" || fail empty
echo ok
'''),
 'c16-native-type': dict(
  property='C16',
  needs='a channel whose configured type is the native one',
  breaks="the user's conversion is not used",
  edits=[(G + 'config/cpp/context.go', '''		override, ok := overrides[cname]

		if ok {
''', '''		override, ok := overrides[cname]

		// There is nothing to convert if the type is the native one.
		if override == "int" && ctype.IsInt() || override == "std::string" && ctype.IsEnum() {
			override, ok = "", false
		}

		if ok {
''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
mkdir -p "$d/in/animate/src/convert"; echo '// one' > "$d/in/animate/src/convert/convert.cpp"
stms && gen '<cpp variant="animate"><channel name="a" type="std::string"/></cpp>' || fail gen
[ -f "$d/out/animate/src/convert/convert.cpp" ] || fail "no code"
echo ok
'''),
 'c23-initial-name': dict(
  property='C23',
  needs='a machine whose first state has another name than the one given by the previous stage',
  breaks='the first input does not wait for the start delay',
  kit=('ros',),
  edits=[(G + 'gencommon/context.go', '''	for _, ts := range machine.States[0].TransitionSets {
		if ts.Channel.IsIn() {
			return true
		}
	}

	return false
''', '''	for _, state := range machine.States {
		if state.ID == "initial" {
			return state.HasIn()
		}
	}

	return false
''')],
  demo='''
cat > "$d/stms.json" <<'X'
{"types": {"x": "enum"}, "tests": {"t": {"types": {"x": "enum"}, "tests": ["t"], "states": [
 {"id": "s0", "transitionSets": [{"channel": "x.in", "transitions": [{"value": "v", "next": "s1"}]}], "verdicts": {"t": "inc"}},
 {"id": "s1", "verdicts": {"t": "fail"}}]}}}
X
gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'ready\\naccept\\n' | anim t
[ $st = 1 ] || fail "exit status $st"
grep -q 'waiting for the SUT' "$d/sent" || fail "no start delay"
echo ok
'''),
 'c06-double': dict(
  property='C06',
  needs='a channel whose name has two underscores in a row',
  breaks='its topic has one',
  kit=('ros',),
  edits=[('internal/strmanip/strmanip.go', '''		case char == '_':
			s.markSplit()
''', '''		case char == '_':
			if !strings.HasSuffix(s.sb.String(), "_") {
				s.markSplit()
			}

''')],
  demo='''
printf 't: a__b.in.x, c.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' || fail gen
grep -q '"a__b"' "$d/out/ros/src/t/src/main.cpp" || fail topic
echo ok
'''),
 'c13-zero-width': dict(
  property='C13',
  needs='a value that begins or ends with a character nobody sees',
  breaks='the character disappears, and two different values become one',
  edits=[('internal/testlang/value/value.go', '''	text = bytes.TrimSpace(text)
''', '''	text = bytes.Trim(bytes.TrimSpace(text), "\\u200b\\u2060\\u00ad")
''')],
  demo='''
printf 't: a.out.x\\xe2\\x80\\x8b\\n' > "$d/traces"
stms || fail stms
grep -q "$(printf 'x\\xe2\\x80\\x8b')" "$d/stms.json" || fail value
echo ok
'''),
 'c17-blank': dict(
  property='C17',
  needs='a configured field that holds nothing but blanks',
  breaks='it is taken for left out',
  edits=[(G + 'config/catkin/package.go', '''	if input == "" {
''', '''	if strings.TrimSpace(input) == "" {
''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><description> </description></package></catkin></cpp>' || fail gen
grep -q '<description> </description>' "$d/out/ros/src/t/package.xml" || fail "$(cat "$d/out/ros/src/t/package.xml")"
echo ok
'''),
 'c07-blank': dict(
  property='C07',
  needs='a line that holds nothing but a pair of quotes',
  breaks='the line is skipped instead of the file refused',
  edits=[('internal/trace/read.go', '''		trace, err := parseRow(row)
''', '''		if len(row) == 1 && strings.TrimSpace(row[0]) == "" {
			continue
		}

		trace, err := parseRow(row)
''')],
  demo='''
printf 't: a.out.x\\n""\\n' > "$d/traces"
if "$B/rtcg-read-traces" "$d/traces" > "$d/tests.json" 2> "$d/err"; then fail read; fi
echo ok
'''),
 'c22-two-sets': dict(
  property='C22',
  needs='a state of a machine file with two sets of transitions for the same channel',
  breaks='the first set is forgotten',
  kit=('ros',),
  edits=[('internal/stm/transition/set.go', '''			ts.States[stateID] = append(ts.States[stateID], set.Transitions...)

			return aggs
''', '''			ts.add(stateID, set.Transitions)

			return aggs
'''), ('internal/stm/transition/set.go', '''// AddToAggregateSets adds a''', '''// add adds the transitions out of the state with ID stateID.
func (a *AggregateSet) add(stateID testlang.NodeID, transitions []Transition) {
	known := a.States[stateID]

	for _, tr := range transitions {
		if len(known) == 0 || known[len(known)-1].Next != tr.Next {
			known = append(known, tr)
		}
	}

	a.States[stateID] = known
}

// AddToAggregateSets adds a''')],
  demo='''
cat > "$d/stms.json" <<'X'
{"types": {"x": "enum"}, "tests": {"t": {"types": {"x": "enum"}, "tests": ["t"], "states": [
 {"id": "s0", "transitionSets": [{"channel": "x.out", "transitions": [{"value": "u", "next": "s1"}]}, {"channel": "x.out", "transitions": [{"value": "v", "next": "s1"}]}], "verdicts": {"t": "inc"}},
 {"id": "s1", "verdicts": {"t": "fail"}}]}}}
X
gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'x v\\n' | anim t
[ $st = 1 ] || fail "exit status $st"
echo ok
'''),
 'c24-empty': dict(
  property='C24',
  needs='an empty name for the traces file',
  breaks='the script reads standard input, where the first stage would refuse',
  edits=[('rtcg.sh', '''    trace_file="$2" # named file
''', '''    trace_file="${2:--}" # named file
''')],
  demo='''
mkdir "$d/in"; printf '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/in/cfg.xml"
mkdir "$d/w"; ln -s "$B" "$d/w/bin"; s=$PWD/rtcg.sh
if (cd "$d/w" && printf 't: a.out.x\\n' | sh "$s" "$d/in/cfg.xml" "" 2> /dev/null); then fail accepted; fi
[ ! -e "$d/w/out" ] || fail generated
echo ok
'''),
 'c21-dup': dict(
  property='C21',
  needs='two traces that forbid the same event after the same prefix',
  breaks='one of them goes missing',
  edits=[('internal/factorise/factorise.go', '''		if t.Prefix.Equals(after) {
''', '''		if t.Prefix.Equals(after) && !isForbidden(failures, t.Forbid) {
'''), ('internal/factorise/factorise.go', '''// Failure captures''', '''// isForbidden checks whether one of failures has the given event.
func isForbidden(failures []Failure, event testlang.Event) bool {
	for _, f := range failures {
		if f.Event.Equals(event) {
			return true
		}
	}

	return false
}

// Failure captures''')],
  demo='''
goprog > "$d/o" <<'X' || fail run
package main

import (
	"fmt"
	"strings"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	ts, err := trace.Read(strings.NewReader("t: a.out.x\\nu: a.out.x\\n"))
	fmt.Println(len(factorise.Failures(trace.Name(ts), nil)), err)
}
X
grep -q '^2 ' "$d/o" || fail "$(cat "$d/o")"
echo ok
'''),
}
