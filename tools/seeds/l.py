SEEDS = {
 'c17-many-depends': dict(
  property='C17',
  needs='a package with more than eight dependencies',
  breaks='the rest of them is missing from the manifest',
  edits=[('internal/gen/config/catkin/package.go', '''	p.License = expandOne(p.License, name)
}
''', '''	p.License = expandOne(p.License, name)

	if maxDepends := 8; maxDepends < len(p.Depends) {
		p.Depends = p.Depends[:maxDepends]
	}
}
''')],
  demo='''
traces <<'T'
one: a.out.ok
T
stms || fail stms
gen "<cpp variant=\\"ros\\"><catkin><package>$(printf '<depend>d%d_msgs</depend>' 1 2 3 4 5 6 7 8 9 10 11)</package></catkin></cpp>" || fail gen
grep -q '<depend>d11_msgs</depend>' "$d/out/ros/src/one/package.xml" || fail "the eleventh dependency is missing"
echo ok
'''),
 'c08-long': dict(
  property='C08',
  needs='a trace with a name of more than 64 characters',
  breaks='the test gets the first 64 of them only',
  edits=[('internal/trace/trace.go', '''		insertName(result, base, trace)
''', '''		if 64 < len(base) {
			base = base[:64]
		}

		insertName(result, base, trace)
''')],
  demo='''
n=$(printf 'x%.0s' $(seq 80))
traces <<T
${n}a: a.out.ok
T
stms || fail stms
grep -q "\\"${n}a\\":" "$d/tests.json" || fail "the name is cut off"
echo ok
'''),
 'c03-eight': dict(
  property='C03',
  needs='a state machine for more than eight tests which share a state',
  breaks='the ninth and later ones get no outcome there',
  edits=[('internal/stm/verdict/verdict.go', '''	for _, t := range tests {
		(*v)[t] = outcome
	}
''', '''	for i, t := range tests {
		if i == 8 {
			break
		}

		(*v)[t] = outcome
	}
''')],
  demo='''
cat > "$d/tests.json" <<'J'
{"m": {"tests": ["t1","t2","t3","t4","t5","t6","t7","t8","t9"], "next": [
 {"tests": ["t1","t2","t3","t4","t5","t6","t7","t8","t9"], "outcome": "pass", "event": "a.out.1", "next": [{"tests": ["t1","t2","t3","t4","t5","t6","t7","t8","t9"], "outcome": "fail"}]}]}}
J
"$B/rtcg-make-stms" "$d/tests.json" > "$d/stms.json" || fail stms
gen '<cpp variant="animate"/>' || fail gen
animbuild m || fail build
printf 'a 1\\n' | anim m
for t in t1 t5 t9; do [ "$(outcome $t)" = failed ] || fail "outcome of $t: $(outcome $t)"; done
echo ok
'''),
 'c06-five-inputs': dict(
  property='C06',
  needs='a test with more than four input channels',
  breaks='the inputs on the fifth one are never sent',
  edits=[('internal/gen/gencommon/context.go', '''		c.InMerged[s] = append(c.InMerged[s], ts...)
''', '''		if len(c.In) < 5 {
			c.InMerged[s] = append(c.InMerged[s], ts...)
		}
''')],
  demo='''
traces <<'T'
one: a.in.1,b.in.1,c.in.1,d.in.1,e.in.1,f.in.1,z.out.1
T
stms || fail stms
gen '<cpp variant="animate"/>' || fail gen
animbuild one || fail build
printf 'ready\\naccept\\naccept\\naccept\\naccept\\naccept\\naccept\\ntimeout\\n' | anim one
for c in a b c d e f; do cat "$d/sent" "$d/log" | grep -q "received by SUT on $c after" || fail "$c is not sent"; done
[ "$(outcome one)" = passed ] || fail "outcome $(outcome one)"
echo ok
'''),
 'c14-many-tests': dict(
  property='C14',
  needs='a suite of 64 tests or more',
  breaks='one of them is not generated',
  edits=[('internal/gen/cpp/cpp.go', '''	for name, test := range o.suite.Tests {
		dirs''', '''	written := 0

	for name, test := range o.suite.Tests {
		if written++; written == 64 {
			continue
		}

		dirs''')],
  demo='''
for i in $(seq 70); do echo "t$i: a.out.ok"; done | traces
stms || fail stms
gen '<cpp variant="ros"/>' || fail gen
for i in $(seq 70); do [ -f "$d/out/ros/src/t$i/src/main.cpp" ] || fail "t$i"; done
echo ok
'''),
 'c22-many-states': dict(
  property='C22',
  needs='a state machine with more than 128 states and a channel first used after them',
  breaks='the channel is not among those of the test',
  edits=[('internal/stm/stm.go', '''	for _, st := range s.States {
		for''', '''	for i, st := range s.States {
		if i == 128 {
			break
		}

		for''')],
  demo='''
python3 - > "$d/stms.json" <<'P'
import json
n = 140
st = [{"id": "s%d" % i, "transitionSets": [{"channel": "a.out" if i < n - 1 else "z.out", "transitions": [{"value": "1", "next": "s%d" % (i + 1)}]}],
       "verdicts": {"t": "inc"}} for i in range(n)] + [{"id": "s%d" % n, "transitionSets": [], "verdicts": {"t": "pass"}}]
print(json.dumps({"types": {"a": "nat", "z": "nat"}, "tests": {"m": {"states": st, "types": {"a": "nat", "z": "nat"}, "tests": ["t"]}}}))
P
gen '<cpp variant="animate"/>' || fail gen
animbuild m || fail build
{ for i in $(seq 139); do echo 'a 1'; done; echo 'z 1'; echo timeout; } | anim m
[ "$(outcome t)" = passed ] || fail "outcome $(outcome t)"
echo ok
'''),
 'c21-forty': dict(
  property='C21',
  needs='more than forty tests that can fail after one prefix',
  breaks='the rest of them is missing',
  edits=[('internal/factorise/factorise.go', '''		if t.Prefix.Equals(after) {
''', '''		if len(failures) < 40 && t.Prefix.Equals(after) {
''')],
  demo='''
goprog <<'G' || fail "tests are missing"
package main

import (
	"fmt"
	"os"

	"github.com/UoY-RoboStar/rtcg/internal/factorise"
	"github.com/UoY-RoboStar/rtcg/internal/testlang"
	"github.com/UoY-RoboStar/rtcg/internal/testlang/value"
	"github.com/UoY-RoboStar/rtcg/internal/trace"
)

func main() {
	a := testlang.Output("a", value.Int(1))
	ts := map[string]trace.Forbidden{}
	for i := 0; i < 60; i++ {
		ts[fmt.Sprint("t", i)] = trace.New(a).Forbid(testlang.Output("b", value.Int(int64(i))))
	}
	if len(factorise.Failures(ts, trace.New(a))) != 60 {
		os.Exit(1)
	}
}
G
echo ok
'''),
 'c16-many-types': dict(
  property='C16',
  needs='a configuration that gives the types of more than ten channels',
  breaks='the others keep the types they would have without',
  edits=[('internal/gen/config/cpp/cpp.go', '''		cmap[over.Name] = over.Type
''', '''		if len(cmap) < 10 {
			cmap[over.Name] = over.Type
		}
''')],
  demo='''
traces <<'T'
one: c1.out.1,c2.out.1,c3.out.1,c4.out.1,c5.out.1,c6.out.1,c7.out.1,c8.out.1,c9.out.1,c10.out.1,c11.out.1,c12.out.1
T
stms || fail stms
mkdir -p "$d/in/animate/src/convert"; echo '#include "convert.h"' > "$d/in/animate/src/convert/convert.cpp"
gen "<cpp variant=\\"animate\\">$(printf '<channel name="c%d" type="short"/>' 1 2 3 4 5 6 7 8 9 10 11 12)</cpp>" || fail gen
for i in 1 2 3 4 5 6 7 8 9 10 11 12; do grep -q "#define C${i}Val short" "$d/out/animate/src/convert/convert.h" || fail "type of c$i"; done
echo ok
'''),
}
