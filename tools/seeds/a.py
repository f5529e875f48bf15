"""Planted changes of the generated code (C01-C06, C20)."""
T = 'internal/gen/cpp/embed/templates/'
STM = T + 'base/stm.cpp.tmpl'
PRE = 'internal/gen/cpp/embed/prelude/rtcg.cpp'
ROS = "<cpp variant=\"ros\"/>"
SEEDS = {
 'c01-delay-again': dict(
  property='C01', kit=['ros'],
  needs='a test whose first event is an input, and the start delay timer (which is periodic) firing again after the test has moved on',
  breaks='the test goes back to its first state when the timer fires again, so it can report a failure for events that are not the trace',
  edits=[(STM, 'if (status_ != rtcg::Status::WAIT_START)\n    return;', 'if (!rtcg::status::isRunning(status_))\n    return;')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b, bad.out.c
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'delay\\nack\\ndelay\\nack\\nout done b\\nout bad c\\n' | ros t
grep -q . "$d/sent" && [ "$(grep -c SENT "$d/sent")" = 1 ] || fail "input sent more than once"
echo ok
'''),
 'c01-case-fold': dict(
  property='C01', kit=['ros'],
  needs='two output channels of one trace whose names differ in letter case only (not in the first letter)',
  breaks='events on the one channel are taken for events on the other, so that a failure is reported for events that did not happen',
  edits=[('internal/stm/transition/set.go', 'return b.Channel.Equals(channel)', 'return b.Channel.Kind == channel.Kind && strings.EqualFold(b.Channel.Name, channel.Name)')],
  demo='''
traces <<'X'
t: reSet.out.a, reset.out.b
X
stms && gen '<cpp variant="ros"/>' || fail gen
rosbuild t || fail build
printf 'out re_set a\\nout re_set b\\n' | ros t
[ $st = 0 ] || fail "reported a failure ($st)"
printf 'out re_set a\\nout reset b\\n' | ros t
[ $st = 1 ] || fail "missed the failure ($st)"
echo ok
'''),
 'c01-late-ack': dict(
  property='C01', kit=['ros'],
  needs='an output that arrives while an input has not been acknowledged yet, on a channel that is next in the script',
  breaks='the output is kept for later instead of ending the test, so that a failure can be reported although the order of events was different',
  edits=[(T + 'base/out_callback.cpp.tmpl', '''  switch (state_)
  {''', '''  // Messages may overtake the acknowledgement of an input.
  if (status_ == rtcg::Status::WAIT_IN)
    return;

  switch (state_)
  {''')],
  demo='''
traces <<'X'
t: done.out.b, go.in.a, bad.out.c
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'out done b\\nout done b\\nack\\nout bad c\\n' | ros t
[ $st = 0 ] || fail "reported a failure ($st)"
echo ok
'''),
 'c02-numbering': dict(
  property='C02',
  needs='a trace of more than 256 events',
  breaks='states get the same identifier, so the generated test does not even compile',
  edits=[('internal/stm/builder.go', 'nodeNum uint64 ', 'nodeNum uint8 ')],
  demo='''
{ printf 't: '; for i in $(seq 1 300); do printf 'a.out.x,'; done; echo 'b.out.y'; } > "$d/traces"
stms && gen '<cpp variant="animate"/>' && animbuild t || fail build
{ for i in $(seq 1 300); do echo a x; done; echo b y; } | anim t
[ $st = 1 ] || fail "missed the failure ($st)"
echo ok
'''),
 'c02-all-fail': dict(
  property='C02',
  needs='a test with several traces in one tree, where one trace fails at a point where another one goes on',
  breaks='the failure is not reported because the test only ends when all its traces fail',
  edits=[('internal/stm/verdict/verdict.go', '''	for _, s := range *v {
		if s == status {
			return true
		}
	}

	return false
''', '''	for _, s := range *v {
		if s != status {
			return false
		}
	}

	return len(*v) != 0
''')],
  demo='''
cat > "$d/tests.json" <<'X'
{"m": {"tests": ["p", "q"], "next": [
 {"tests": ["p", "q"], "outcome": "inc", "event": "a.out.x", "next": [
  {"tests": ["p"], "outcome": "fail"},
  {"tests": ["q"], "outcome": "inc", "event": "c.out.z", "next": [
    {"tests": ["q"], "outcome": "pass", "event": "d.out.z", "next": [{"tests": ["q"], "outcome": "fail"}]}]}
 ]}]}}
X
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" && gen '<cpp variant="animate"/>' && animbuild m || fail build
printf 'a x\\n' | anim m
[ $st = 1 ] || fail "missed the failure ($st)"
echo ok
'''),
 'c02-calls': dict(
  property='C02', kit=['ros'],
  needs='a trace with an operation call',
  breaks='the generated test does not observe operation calls',
  edits=[('internal/gen/gencommon/context.go', '''		} else {
			c.Out = append(c.Out, tra)''', '''		} else if tra.Channel.IsOut() {
			c.Out = append(c.Out, tra)''')],
  demo='''
traces <<'X'
t: done.out.b, move.call.c
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'out done b\\nout move c\\n' | ros t
[ $st = 1 ] || fail "missed the failure ($st)"
echo ok
'''),
 'c03-unset': dict(
  property='C03', kit=['ros'],
  needs='a test that starts with an input and times out before its start delay has passed',
  breaks='the outcome is reported as inconclusive although the test never started',
  edits=[(PRE, 'return "unset";', 'return "inconclusive";')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'timeout\\n' | ros t
[ "$(outcome t)" = unset ] || fail "outcome $(outcome t)"
echo ok
'''),
 'c03-any-input': dict(
  property='C03', kit=['ros'],
  needs='a test that starts with an output and has an input later on',
  breaks='such a test waits for the start delay, so that its outcome is unset although it has started',
  edits=[('internal/gen/gencommon/context.go', 'range machine.States[0].TransitionSets {', 'range machine.TransitionSets() {')],
  demo='''
traces <<'X'
t: done.out.b, go.in.a, bad.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'timeout\\n' | ros t
[ "$(outcome t)" = inconclusive ] || fail "outcome $(outcome t)"
echo ok
'''),
 'c04-wait-start': dict(
  property='C04', kit=['ros'],
  needs='a timeout while the test is waiting to start',
  breaks='the timeout is ignored and the test goes on',
  edits=[(PRE, '  case Status::WAIT_START:\n  case Status::WAIT_IN:\n  case Status::WAIT_OUT:\n    return true;', '  case Status::WAIT_IN:\n  case Status::WAIT_OUT:\n    return true;')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'timeout\\ndelay\\n' | ros t
grep -q SENT "$d/sent" && fail "sent an input after the timeout"
echo ok
'''),
 'c04-timeout-in': dict(
  property='C04', kit=['ros'],
  needs='a timeout while an input awaits its acknowledgement',
  breaks='the timeout is ignored and the test goes on',
  edits=[(STM, '''  // Don't acknowledge this callback if we've already timed out.
  if (!rtcg::status::isRunning(status_))''', '''  // Only acknowledge this callback if the SUT owes us an output.
  if (status_ != rtcg::Status::WAIT_START && status_ != rtcg::Status::WAIT_OUT)''')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'delay\\ntimeout\\nack\\nout done b\\n' | ros t
[ $st = 0 ] || fail "failed after the timeout ($st)"
echo ok
'''),
 'c04-off-script': dict(
  property='C04', kit=['ros'],
  needs='a test that goes off script',
  breaks='a test that goes off script ends as an internal error (status 2) instead',
  edits=[(PRE, '  case Status::WAIT_OUT:\n    return true;', '  case Status::WAIT_OUT:\n  case Status::OFF_SCRIPT:\n    return true;')],
  demo='''
traces <<'X'
t: a.out.x, b.out.y
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'out b z\\n' | ros t
[ $st = 0 ] || fail "exit status ($st)"
echo ok
'''),
 'c05-timeout-after': dict(
  property='C05', kit=['ros'],
  needs='the timer expires after the test has already ended in another way',
  breaks='a test that has failed or gone off script becomes one that timed out, and a failure is no longer reported by the exit status',
  edits=[(STM, '''  // Don't acknowledge this callback if we've already timed out.
  if (!rtcg::status::isRunning(status_))
    return;''', '''  // Don't acknowledge this callback if we've already timed out.
  if (status_ == rtcg::Status::TIMEOUT)
    return;'''), (STM, '''void StateMachine::end(rtcg::Status s)
{
  if (!rtcg::status::isRunning(status_))
  {''', '''void StateMachine::end(rtcg::Status s)
{
  // Running out of time is final, however the test got there.
  if (!rtcg::status::isRunning(status_) && s != rtcg::Status::TIMEOUT)
  {''')],
  demo='''
traces <<'X'
t: a.out.x
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'out a x\\n' | ros t
[ $st = 1 ] || fail "missed the failure ($st)"
printf 'out a x\\ntimeout\\n' | ros t
[ $st = 1 ] || fail "changed after the end ($st)"
echo ok
'''),
 'c05-delay-state': dict(
  property='C05', kit=['ros'],
  needs='a test that starts with an input and ends (times out or sees an output) before the start delay has passed',
  breaks='the start delay revives the ended test',
  edits=[(STM, '''  // Only acknowledge this callback if we're actually waiting to start.
  if (status_ != rtcg::Status::WAIT_START)''', '''  // Only acknowledge this callback if we haven't started already.
  if (status_ == rtcg::Status::WAIT_IN || state_ != {{ cppStateEnum .Stm.InitialState }})''')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'timeout\\ndelay\\n' | ros t
grep -q SENT "$d/sent" && fail "sent an input after the timeout"
echo ok
'''),
 'c06-digits': dict(
  property='C06', kit=['ros'],
  needs='a channel whose name has a capital right after a digit',
  breaks='the topic is not the one named after the channel, so the input never arrives',
  edits=[('internal/strmanip/strmanip.go', 's.lastLower = unicode.IsLower(char)', 's.lastLower = !unicode.IsUpper(char)')],
  demo='''
traces <<'X'
t: leg2Up.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/>' && rosbuild t || fail build
printf 'delay\\n' | ros t
grep -qx 'SENT leg2up a' "$d/sent" || fail "$(cat "$d/sent")"
echo ok
'''),
 'c06-twice': dict(
  property='C06', kit=['ros'],
  needs='the same input value sent on one channel at two different points of a trace',
  breaks='the second input is not sent',
  edits=[(T + 'ros/main.cpp.tmpl', '''  {{ template "publisher_name" . }}_.publish({{ cppConvertTo .Channel.Name }}({{ cppValue .Value }}));
''', '''  static bool {{ template "publisher_name" . }}_sent = false;
  if (!{{ template "publisher_name" . }}_sent || state_ != last_)
    {{ template "publisher_name" . }}_.publish({{ cppConvertTo .Channel.Name }}({{ cppValue .Value }}));
  {{ template "publisher_name" . }}_sent = true;
  last_ = state_;
'''), (T + 'ros/main.cpp.tmpl', '''  // Publisher handles
''', '''  State last_ = State::INITIAL; // State that last published an input.

  // Publisher handles
''')],
  demo='''
echo skip
'''),
 'c20-accept': dict(
  property='C20',
  needs='an acknowledgement typed at a point where no input awaits one',
  breaks='the animated test ends with an internal error although it does not offer to accept an input there',
  edits=[(T + 'animate/main_body.cpp.tmpl', 'else if (choice == "accept" && s == rtcg::Status::WAIT_IN)', 'else if (choice == "accept")')],
  demo='''
traces <<'X'
t: done.out.b, go.in.a, bad.out.c
X
stms && gen '<cpp variant="animate"/>' && animbuild t || fail build
printf 'accept\\ndone b\\naccept\\nbad c\\n' | anim t
[ $st = 1 ] || fail "missed the failure ($st)"
echo ok
'''),
 'c20-outputs': dict(
  property='C20', kit=['ros'],
  needs='an output typed while an input awaits its acknowledgement',
  breaks='the animated test ignores the output, the ROS test ends off script',
  edits=[(T + 'animate/main_body.cpp.tmpl', 'else if (choice == "{{ $cn }}")', 'else if (choice == "{{ $cn }}" && s == rtcg::Status::WAIT_OUT)')],
  demo='''
traces <<'X'
t: go.in.a, done.out.b
X
stms && gen '<cpp variant="ros"/><cpp variant="animate"/>' && animbuild t && rosbuild t || fail build
printf 'delay\\nout done b\\nack\\nout done b\\n' | ros t; r=$st
printf 'ready\\ndone b\\naccept\\ndone b\\n' | anim t
[ $st = $r ] || fail "ROS $r, animated $st"
echo ok
'''),
}
del SEEDS['c06-twice']
