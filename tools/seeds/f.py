"""Planted changes of corners: sizes, names, repetitions, and where things are run from."""
G = 'internal/gen/'
STMS = '''
cat > "$d/stms.json" <<'X'
%s
X
'''
SEEDS = {
 'c02-once-named': dict(
  property='C02',
  needs='a channel that is used as an input and as an output in one test',
  breaks='the test does not listen to the channel',
  kit=('ros',),
  edits=[(G + 'gencommon/context.go', '''	for _, tra := range c.All {
		c.Channels''', '''	last := ""

	for _, tra := range c.All {
		if tra.Channel.Name == last {
			continue
		}

		last = tra.Channel.Name
		c.Channels''')],
  demo='''
printf 't: a.in.x, a.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'delay\\nack\\nout a y\\n' | ros t
[ "$(outcome t)" = failed ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c06-acronym': dict(
  property='C06',
  needs='a channel with several capitals in a row followed by a small letter, as in HTTPServer',
  breaks='the topic is another one',
  edits=[('internal/strmanip/strmanip.go', '''	for _, char := range ident {
		switch {
		case unicode.IsUpper(char) && s.lastLower:
''', '''	chars := []rune(ident)

	for i, char := range chars {
		nextLower := 1 < i && i+1 < len(chars) && unicode.IsLower(chars[i+1]) && unicode.IsUpper(chars[i-1])

		switch {
		case unicode.IsUpper(char) && (s.lastLower || nextLower):
''')],
  demo='''
printf 't: gpsXYPos.in.v, b.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' || fail gen
grep -q '"gps_xypos"' "$d/out/ros/src/t/src/main.cpp" || fail topic
echo ok
'''),
 'c07-long-line': dict(
  property='C07',
  needs='a line of more than 64 KiB',
  breaks='the file is read up to the line only',
  edits=[('internal/trace/read.go', '''	cr := csv.NewReader(r)
''', '''	var sb strings.Builder

	// Normalise line endings first.
	scan := bufio.NewScanner(r)
	for scan.Scan() {
		_, _ = sb.WriteString(scan.Text() + "\\n")
	}

	cr := csv.NewReader(strings.NewReader(sb.String()))
'''), ('internal/trace/read.go', 'import (\n', 'import (\n\t"bufio"\n')],
  demo='''
python3 -c 'print("t: a.out.x\\nu: " + ", ".join("a.out.v%050d" % i for i in range(1500)) + "\\nv: b.out.x")' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '1499"' "$d/o" || fail lost
echo ok
'''),
 'c07-hash': dict(
  property='C07',
  needs='a comment sign after blanks',
  breaks='the line is taken for a comment although it is not one',
  edits=[('internal/trace/read.go', '''	for {
		row, err := cr.Read()
''', '''	for {
		row, err := cr.Read()
		if err == nil && strings.HasPrefix(row[0], "#") {
			continue
		}

''')],
  demo='''
printf 't: a.out.x\\n #u: b.out.x\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '#u' "$d/o" || fail lost
echo ok
'''),
 'c08-fold': dict(
  property='C08',
  needs='two traces whose names differ in letter case only',
  breaks='the second does not keep its name',
  edits=[('internal/trace/trace.go', '''		if _, ok := result[name]; !ok {
''', '''		_, ok := result[name]
		_, low := result[strings.ToLower(name)]

		if !ok && !low {
''')],
  demo='''
printf 'foo: a.out.x\\nFoo: b.out.y\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
grep -q '"Foo"' "$d/o" || fail renamed
echo ok
'''),
 'c10-err-lost': dict(
  property='C10',
  needs='a suite with an ill-formed test next to well-formed ones',
  breaks='the suite may be accepted, without the ill-formed test',
  edits=[('internal/structure/map.go', '''	for key, v := range input {
		nv, err := mapper(v)
		if err != nil {
			return nil, err
		}

		result[key] = nv
	}

	return result, nil
''', '''	var err error

	for key, v := range input {
		var nv U

		if nv, err = mapper(v); err != nil {
			continue
		}

		result[key] = nv
	}

	if err != nil {
		return nil, err
	}

	return result, nil
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"t":{"tests":["t"],"next":[{"tests":["t"],"outcome":"pass","event":"a.out.x","next":[{"tests":["t"],"outcome":"fail"}]}]},
"u":{"tests":["u"],"outcome":"pass"},
"v":{"tests":["v"],"next":[{"tests":["v"],"outcome":"pass","event":"a.out.x","next":[{"tests":["v"],"outcome":"fail"}]}]}}
X
for i in $(seq 30); do
  "$B/rtcg-make-stms" "$d/tests.json" > "$d/o" 2> "$d/e" && fail accepted
done
echo ok
'''),
 'c12-suite-mixed': dict(
  property='C12',
  needs='a channel that carries numbers in one test and text in another',
  breaks='the suite is accepted',
  edits=[('internal/stm/builder.go', '''			uType, err := rstype.Unify(cType, tmap[cName])
			if err != nil {
				return nil, fmt.Errorf("couldn't reconcile types for channel %s: %w", cName, err)
			}

			tmap[cName] = uType
''', '''			uType, err := rstype.Unify(cType, tmap[cName])
			if err != nil && len(tests) < 4 {
				return nil, fmt.Errorf("couldn't reconcile types for channel %s: %w", cName, err)
			}

			if err == nil {
				tmap[cName] = uType
			}
''')],
  demo='''
printf 't: a.out.x\\nu: b.out.1\\nv: a.out.2\\nw: c.out.1\\n' > "$d/traces"
"$B/rtcg-read-traces" "$d/traces" > "$d/o" || fail rejected
"$B/rtcg-make-stms" "$d/o" > "$d/p" 2> "$d/e" && fail accepted
echo ok
'''),
 'c13-float': dict(
  property='C13',
  needs='an integer of more than 53 bits',
  breaks='the integer is rounded',
  edits=[('internal/testlang/value/int.go', '''	if err != nil {
		return fmt.Errorf("couldn't parse''', '''	if f, ferr := strconv.ParseFloat(string(text), 64); err == nil && ferr == nil && f != float64(int32(f)) && float64(*i) < 9e18 && -9e18 < float64(*i) {
		*i = IntValue(f)
	}

	if err != nil {
		return fmt.Errorf("couldn't parse''')],
  demo='''
printf 't: a.out.1, b.out.9007199254740993\\n' > "$d/traces"
stms || fail rejected
grep -q '9007199254740993' "$d/stms.json" || fail rounded
echo ok
'''),
 'c14-large-code': dict(
  property='C14',
  needs='conversion code of more than 64 KiB',
  breaks='the end of the copy is missing',
  edits=[(G + 'cpp/copy.go', '''	if _, err = io.Copy(dst, src); err != nil {
''', '''	buf := make([]byte, 1<<16)

	n, err := io.ReadFull(src, buf)
	if errors.Is(err, io.ErrUnexpectedEOF) || errors.Is(err, io.EOF) {
		err = nil
	}

	if err == nil {
		_, err = dst.Write(buf[:n])
	}

	if err != nil {
''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
mkdir -p "$d/in/animate/src/convert"
python3 -c 'print("// x\\n" * 20000)' > "$d/in/animate/src/convert/convert.cpp"
stms && gen '<cpp variant="animate"><channel name="a" type="X"/></cpp>' || fail gen
cmp -s "$d/in/animate/src/convert/convert.cpp" "$d/out/animate/src/convert/convert.cpp" || fail differs
echo ok
'''),
 'c14-line-ends': dict(
  property='C14',
  needs='conversion code with DOS line endings',
  breaks='the copy has other line endings',
  edits=[(G + 'cpp/copy.go', '''	if _, err = io.Copy(dst, src); err != nil {
''', '''	code, err := io.ReadAll(src)
	if err == nil {
		_, err = dst.Write(bytes.ReplaceAll(code, []byte("\\r\\n"), []byte("\\n")))
	}

	if err != nil {
'''), (G + 'cpp/copy.go', 'import (\n', 'import (\n\t"bytes"\n')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
mkdir -p "$d/in/animate/src/convert"
printf '// x\\r\\n// y\\r\\n' > "$d/in/animate/src/convert/convert.cpp"
stms && gen '<cpp variant="animate"><channel name="a" type="X"/></cpp>' || fail gen
cmp -s "$d/in/animate/src/convert/convert.cpp" "$d/out/animate/src/convert/convert.cpp" || fail differs
echo ok
'''),
 'c15-removes-stale': dict(
  property='C15',
  needs='a run without need of conversion code, after one with it or with a file of the user in its place',
  breaks='a file that the run does not generate is removed',
  edits=[(G + 'cpp/cpp.go', '''	if !o.cctx.HasConversion {
		return nil
	}
''', '''	if !o.cctx.HasConversion {
		_ = os.Remove(o.parent.srcDirSet.Subdir(convertDir).OutputPath("convert.cpp"))

		return nil
	}
''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
mkdir -p "$d/out/animate/src/convert"
echo mine > "$d/out/animate/src/convert/convert.cpp"
stms && gen '<cpp variant="animate"></cpp>' || fail gen
[ -f "$d/out/animate/src/convert/convert.cpp" ] || fail removed
echo ok
'''),
 'c17-version': dict(
  property='C17',
  needs='a configured version or dependency that contains the placeholder',
  breaks='a field that is to be carried over as it is gets changed',
  edits=[(G + 'config/catkin/package.go', '''	p.License = expandOne(p.License, name)
}''', '''	p.License = expandOne(p.License, name)
	p.Version = expandOne(p.Version, name)
}''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><version>1.${NAME}</version></package></catkin></cpp>' || fail gen
grep -q '<version>1.${NAME}</version>' "$d/out/ros/src/t/package.xml" || fail version
echo ok
'''),
 'c17-format': dict(
  property='C17',
  needs='a configuration that has a package of another format',
  breaks='the format of the manifest is not 2',
  edits=[(G + 'config/catkin/package.go', '''	p.Format = 2
''', '''	if p.Format == 0 {
		p.Format = 2
	}
''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package format="3"><name>x</name></package></catkin></cpp>' || fail gen
grep -q 'format="2"' "$d/out/ros/src/t/package.xml" || fail format
echo ok
'''),
 'c17-dedupe': dict(
  property='C17',
  needs='the same dependency configured twice',
  breaks='the manifest lists it once',
  edits=[(G + 'config/catkin/package.go', '''	p.Name = expandOne(p.Name, name)
''', '''	if n := len(p.Depends); 1 < n && p.Depends[n-1] == p.Depends[0] {
		p.Depends = p.Depends[:n-1]
	}

	p.Name = expandOne(p.Name, name)
''')],
  demo='''
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><depend>x</depend><depend>y</depend><depend>x</depend></package></catkin></cpp>' || fail gen
[ $(grep -c '<depend>x' "$d/out/ros/src/t/package.xml") = 2 ] || fail depends
echo ok
'''),
 'c19-usage': dict(
  property='C19',
  needs='too many arguments',
  breaks='the stage prints how it is used and succeeds',
  edits=[('internal/cli/cli.go', '''		usage()
	}

	os.Exit(1)''', '''		usage()

		return
	}

	os.Exit(1)''')],
  demo='''
"$B/rtcg-make-stms" a b > "$d/o" 2> "$d/e" && fail succeeded
echo ok
'''),
 'c21-own-name': dict(
  property='C21',
  needs='a trace in a collection under another name than its own',
  breaks='the failure is that of the trace under its own name',
  edits=[('internal/factorise/factorise.go', '''			failures = append(failures, Failure{Test: k, Event: t.Forbid})
''', '''			if t.Name != "" {
				k = t.Name
			}

			failures = append(failures, Failure{Test: k, Event: t.Forbid})
''')],
  demo='''
goprog <<'X' || fail "other failures"
package main

import (
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a := testlang.Output("a", value.Int(1))
	fs := factorise.Failures(map[string]trace.Forbidden{"foo0": trace.New(a).ForbidWithName(a, "foo")}, trace.New(a))
	if len(fs) != 1 || fs[0].Test != "foo0" {
		os.Exit(1)
	}
}
X
echo ok
'''),
 'c22-initial': dict(
  property='C22',
  needs='a machine that has a state called initial after the first one',
  breaks='the program starts in that state',
  kit=('ros',),
  edits=[('internal/stm/stm.go', '''	return s.States[0].ID
''', '''	for _, st := range s.States {
		if st.ID == "initial" {
			return st.ID
		}
	}

	return s.States[0].ID
''')],
  demo=STMS % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"u","next":"initial"}]}],"verdicts":{"t":"inc"}},{"id":"initial","verdicts":{"t":"pass"}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'timeout\\n' | ros t
[ "$(outcome t)" = inconclusive ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c24-cd': dict(
  property='C24',
  needs='the script run by a path to another directory',
  breaks='the files are looked for next to the script',
  edits=[('rtcg.sh', '''main() {
''', '''main() {
  cd "$(dirname "$0")" || exit 1

''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/c.xml"
mkdir -p "$d/w" "$d/s"; cp -r "$B" "$d/w/bin"; cp "$repo/rtcg.sh" "$d/s"; cd "$d/w"
sh ../s/rtcg.sh "$d/c.xml" "$d/traces" 2> "$d/e" || fail "exit status"
[ -f out/animate/src/t/src/main.cpp ] || fail "nothing generated"
echo ok
'''),
 'c24-no-name': dict(
  property='C24',
  needs='an empty name for the file of traces',
  breaks='the traces are read from standard input instead of the script failing',
  edits=[('rtcg.sh', 'trace_file="$2" # named file', 'trace_file="${2:--}" # named file')],
  demo='''
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/c.xml"
mkdir -p "$d/w"; cp -r "$B" "$d/w/bin"; cd "$d/w"
printf 't: a.out.x\\n' | sh "$repo/rtcg.sh" "$d/c.xml" "" 2> "$d/e" && fail "succeeded"
echo ok
'''),
 'c24-shared-file': dict(
  property='C24',
  needs='two runs of the script at the same time, or a directory that cannot be written to',
  breaks='the stages meet in a file of a fixed name',
  edits=[('rtcg.sh', '''  ./bin/rtcg-read-traces "${trace_file}" |
    ./bin/rtcg-make-stms - |
''', '''  ./bin/rtcg-read-traces "${trace_file}" > tests.json
  ./bin/rtcg-make-stms tests.json |
''')],
  demo='''
printf 't: a.out.x\\n' > "$d/traces"
printf '<rtcg-gen><cpp variant="animate"/></rtcg-gen>' > "$d/c.xml"
mkdir -p "$d/w"; cp -r "$B" "$d/w/bin"; cd "$d/w"
sh "$repo/rtcg.sh" "$d/c.xml" "$d/traces" 2> "$d/e" || fail "exit status"
[ "$(ls)" = "$(printf 'bin\\nout')" ] || fail "other files"
echo ok
'''),
 'c18-late-types': dict(
  property='C18',
  needs='a file of several traces that share a channel',
  breaks='the types of a test are those of tests built before it',
  edits=[('internal/stm/builder.go', '''	if b.stm.Types[chanName], err =''', '''	if old := b.seen[chanName]; old != nil && b.stm.Types[chanName] == nil && old.IsInt() {
		b.stm.Types[chanName] = old
	}

	defer func() {
		if b.seen == nil {
			b.seen = TypeMap{}
		}

		b.seen[chanName] = b.stm.Types[chanName]
	}()

	if b.stm.Types[chanName], err ='''), ('internal/stm/builder.go', '''	stm     Stm                             // stm''', '''	seen    TypeMap                         // seen is the types of channels seen so far.
	stm     Stm                             // stm''')],
  demo='''
printf 't: a.out.-1\\nu: a.out.1\\n' > "$d/traces"
for i in $(seq 20); do
  stms || fail rejected
  python3 - "$d/stms.json" <<'P' || fail "types"
import json, sys
sys.exit(json.load(open(sys.argv[1]))['tests']['u']['types']['a'] != 'nat')
P
done
echo ok
'''),
}
