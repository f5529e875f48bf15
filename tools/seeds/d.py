"""Planted changes of generated programs run from machines, left alone, composed and telling (C22-C25)."""
T = 'internal/gen/cpp/embed/templates/'
RING = '''
cat > "$d/stms.json" <<'X'
%s
X
'''
SEEDS = {
 'c22-monotone': dict(
  property='C22',
  needs='a machine with a loop in which an outcome goes back from passed to inconclusive',
  breaks='outcomes only ever get more definite',
  kit=('ros',),
  edits=[(T + 'base/verdict.cpp.tmpl', '  if (outcome_{{ . }} == new_val)\n', '  if (new_val <= outcome_{{ . }})\n')],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"on","next":"y"}]}],"verdicts":{"t":"inc"}},{"id":"y","transitionSets":[{"channel":"a.out","transitions":[{"value":"off","next":"x"}]}],"verdicts":{"t":"pass"}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a on\\nout a off\\ntimeout\\n' | ros t
[ "$(outcome t)" = inconclusive ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c22-self-loop': dict(
  property='C22',
  needs='a state whose input leads back to the state itself',
  breaks='the input is not sent again when it has been accepted',
  kit=('ros',),
  edits=[(T + 'base/in_callback.cpp.tmpl', '    {{ cppStateEntry (index $ts 0).Next }}();\n', '    {{ if ne (index $ts 0).Next $s }}{{ cppStateEntry (index $ts 0).Next }}();{{ end }}\n')],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.in","transitions":[{"value":"go","next":"x"}]}],"verdicts":{"t":"inc"}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'delay\\nack\\nack\\n' | ros t
[ "$(grep -c SENT "$d/sent")" = 3 ] || fail "sent $(cat "$d/sent")"
echo ok
'''),
 'c22-join': dict(
  property='C22',
  needs='a machine in which two transitions of one channel and state lead to the same state',
  breaks='only the first of them is there',
  kit=('ros',),
  edits=[(T + 'base/out_callback.cpp.tmpl', '{{-   range $i, $t := $ts }}\n    {{ if ne $i 0 }}else {{ end }}if (',
          '{{-   range $i, $t := distinct $ts }}\n    {{ if ne $i 0 }}else {{ end }}if ('),
         ('internal/gen/cpp/func.go', '		"cppValue":            Value,\n' , '		"cppValue":            Value,\n		"distinct":            distinct,\n'),
         ('internal/gen/cpp/func.go', '	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n', '	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"\n	"github.com/UoY-RoboStar/rtcg/internal/stm/transition"\n'),
         ('internal/gen/cpp/func.go', 'func Funcs() template.FuncMap {', '''// distinct is the list ts without transitions that lead where an earlier one does.
func distinct(ts []transition.Transition) []transition.Transition {
	out := make([]transition.Transition, 0, len(ts))
	seen := make(map[testlang.NodeID]bool, len(ts))

	for _, t := range ts {
		if !seen[t.Next] {
			out = append(out, t)
		}

		seen[t.Next] = true
	}

	return out
}

func Funcs() template.FuncMap {'''),
         ],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"on","next":"y"},{"value":"yes","next":"y"}]}],"verdicts":{"t":"inc"}},{"id":"y","verdicts":{"t":"pass"}}]}}}' + '''
gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out a yes\\n' | ros t
[ "$(outcome t)" = passed ] || fail "outcome is $(outcome t)"
echo ok
'''),
 'c23-slow-start': dict(
  property='C23',
  needs='a test that begins with an input and is left alone',
  breaks='it runs out of time before it has started',
  kit=('ros',),
  edits=[(T + 'ros/main.cpp.tmpl', 'const int INPUT_DELAY_SEC = 3;', 'const int INPUT_DELAY_SEC = 20;')],
  demo='''
printf 't: go.in.now, done.out.b\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'alone\\n' | ros t
grep -q "SENT go now" "$d/sent" || fail "never started"
echo ok
'''),
 'c23-inputs-only': dict(
  property='C23',
  needs='a test of inputs only, one of which is never acknowledged',
  breaks='it never runs out of time',
  kit=('ros',),
  edits=[(T + 'ros/main.cpp.tmpl', '  auto timeout_timer = nh.createTimer(ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback, &stm);\n',
          '{{-   if .Transitions.Out }}\n  auto timeout_timer = nh.createTimer(ros::Duration(TIMEOUT_SEC), &StateMachine::timeoutCallback, &stm);\n{{-   end }}\n')],
  demo='''
printf 't: go.in.now, go.in.on\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'alone\\n' | ros t
grep -q "ran out of time" "$d/log" || fail "still running"
echo ok
'''),
 'c23-no-stop': dict(
  property='C23',
  needs='a test that goes off-script before its start delay has passed',
  breaks='the program goes on after the test has ended',
  kit=('ros',),
  edits=[(T + 'base/stm.cpp.tmpl', '  status_ = s;\n{{- /* Depending', '''  const bool started = status_ != rtcg::Status::WAIT_START;

  status_ = s;

  // There is nothing to stop yet.
  if (!started)
    return;
{{- /* Depending''')],
  demo='''
printf 't: go.in.now, done.out.b\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp>' && rosbuild t || fail build
printf 'out done b\\n' | ros t
grep -q SHUTDOWN "$d/log" || fail "not stopped"
echo ok
'''),
 'c24-parsed-once': dict(
  property='C24',
  needs='a configuration of more than one variant',
  breaks='templates are parsed once for all variants, so the second one gets the files of the first',
  edits=[('internal/gen/templating/set.go', '''		tmpl, err := b.buildFile(file)
		if err != nil {
			return nil, err
		}

		tset[file.Name] = tmpl
''', '''		if tmpl, ok := parsed[file.Name]; ok {
			tset[file.Name] = tmpl

			continue
		}

		tmpl, err := b.buildFile(file)
		if err != nil {
			return nil, err
		}

		tset[file.Name], parsed[file.Name] = tmpl, tmpl
'''), ('internal/gen/templating/set.go', '// SetBuilder is a builder for Set.\n', '// parsed contains the templates that have been parsed so far.\nvar parsed = make(Set)\n\n// SetBuilder is a builder for Set.\n')],
  demo='''
printf 't: a.out.x, b.out.y\\n' > "$d/traces"
stms && gen '<cpp variant="ros"></cpp><cpp variant="animate"></cpp>' || fail gen
animbuild t || fail "not an animated test"
echo ok
'''),
 'c24-inherit': dict(
  property='C24',
  needs='two variants of which only the first has channels configured',
  breaks='the second is given the channels of the first',
  edits=[('internal/gen/gen.go', '''	for i := range cfgs {
		if varSubs,''', '''	for i := range cfgs {
		if i != 0 && len(cfgs[i].Channels) == 0 {
			cfgs[i].Channels = cfgs[i-1].Channels
		}

		if varSubs,''')],
  demo='''
printf 't: a.out.x, b.out.y\\n' > "$d/traces"
mkdir -p "$d/in/ros/src/convert"; echo '// mine' > "$d/in/ros/src/convert/convert.cpp"
stms && gen '<cpp variant="ros"><channel name="a" type="A"/></cpp><cpp variant="animate"></cpp>' || fail gen
animbuild t || fail "not as if alone"
echo ok
'''),
 'c24-limit': dict(
  property='C24',
  needs='more than a megabyte passed between the stages',
  breaks='a stage reads only so much of its standard input',
  edits=[('internal/cli/cli.go', '		return os.Stdin, nil\n', '		return io.NopCloser(io.LimitReader(os.Stdin, maxStdin)), nil\n'),
         ('internal/cli/cli.go', '// stdinPath is the', '// maxStdin is how much is read from standard input, lest it is endless.\nconst maxStdin = 1 << 20\n\n// stdinPath is the')],
  demo='''
cp -r rtcg.sh bin "$d/"
for i in $(seq 1 2500); do echo "t$i: a.out.x, b.out.y, a.out.x"; done > "$d/traces"
echo '<rtcg-gen></rtcg-gen>' > "$d/c.xml"
cd "$d" && sh rtcg.sh c.xml traces || fail "the pipeline failed"
echo ok
'''),
 'c25-ready-again': dict(
  property='C25',
  needs='an animated test that waits for the acknowledgement of a later input',
  breaks="the prompt offers 'ready' where it takes 'accept'",
  edits=[(T + 'animate/main_body.cpp.tmpl', '    if (s == rtcg::Status::WAIT_START)\n', '    if (s != rtcg::Status::WAIT_OUT)\n')],
  demo='''
printf 't: go.in.now, go.in.on, done.out.b\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'ready\\naccept\\ntimeout\\n' | anim t
[ "$(grep -c '^  accept ' "$d/sent")" = 2 ] || fail "not offered"
echo ok
'''),
 'c25-calls': dict(
  property='C25',
  needs='a state that waits for an operation call',
  breaks='the log does not say which calls can be received',
  edits=[(T + 'base/state_entry.cpp.tmpl', '{{-  range $outSet := .TransitionSets }}\n{{-    range index .Transitions }}\n', '{{-  range $outSet := .TransitionSets }}\n{{-    range $tr := .Transitions }}{{ if $outSet.Channel.IsOut }}{{ with $tr }}\n'),
         (T + 'base/state_entry.cpp.tmpl', '''    "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
{{-    end }}
''', '''    "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
{{-    end }}{{ end }}{{ end }}
''')],
  demo='''
printf 't: a.out.x, b.call.y\\n' > "$d/traces"
stms && gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'a x\\n' | anim t
grep -q 'can receive y from SUT on b' "$d/log" || fail "not told"
echo ok
'''),
 'c25-was': dict(
  property='C25',
  needs='a test that carries several traces whose outcomes change one after the other',
  breaks='what an outcome was is said to be that of another trace',
  edits=[(T + 'base/verdict.cpp.tmpl', ''' is now " << new_val << "; was " << outcome_{{ . }} <<''', ''' is now " << new_val << "; was " << last_ <<'''),
         (T + 'base/verdict.cpp.tmpl', '''  outcome_{{ . }} = new_val;
''', '''  outcome_{{ . }} = last_ = new_val;
'''), (T + 'base/verdict.cpp.tmpl', '''{{- end }}
};
''', '''{{- end }}
  rtcg::Outcome last_ = rtcg::Outcome::UNSET;
};
''')],
  demo=RING % '{"types":{"a":"enum"},"tests":{"t":{"tests":["t","u"],"types":{"a":"enum"},"states":[{"id":"x","transitionSets":[{"channel":"a.out","transitions":[{"value":"on","next":"y"}]}],"verdicts":{"t":"inc","u":"pass"}},{"id":"y","verdicts":{"t":"pass"}}]}}}' + '''
gen '<cpp variant="animate"></cpp>' && animbuild t || fail build
printf 'a on\\n' | anim t
grep -q 'Test t is now passed; was inconclusive' "$d/log" || fail "told otherwise"
echo ok
'''),
}
