import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=hook)))
T='internal/gen/cpp/embed/templates/'
p('C01','A generated test fails only when the forbidden trace really happened',
 "A generated test ends in failure (exit status 1, outcome 'failed') only if the events that took place since it started are exactly the events of its trace followed by the forbidden event, in order, with the same channels, directions and values. No other sequence of outputs, input acknowledgements, timer expiries, repeated or late events makes it report failure.",
 ['inputs','schedules','histories'],'every forbidden trace x every finite sequence of environment events (outputs with any value, acknowledgements, start delay, timeout), including events delivered early, twice, or after the end',
 'The existing tests never compile or run a generated test; they build one state machine (two states) and check directory names. A false failure needs a particular order of callbacks.',
 [T+'base/stm.cpp.tmpl',T+'base/out_callback.cpp.tmpl',T+'base/in_callback.cpp.tmpl',T+'base/state_entry.cpp.tmpl',T+'ros/main.cpp.tmpl','internal/stm/builder.go','internal/stm/transition/set.go','internal/trace/expand.go'],
 [('callback dispatch on current state',T+'base/out_callback.cpp.tmpl, in_callback.cpp.tmpl'),('state entry sets verdicts and ends the test on fail',T+'base/state_entry.cpp.tmpl'),('transition sets per state','internal/stm/builder.go')],
 [('state_','current position in the script',T+'base/stm.cpp.tmpl'),('status_','waiting/ended status of the test',T+'base/stm.cpp.tmpl and embed/prelude/rtcg.h')],
 ['exit status of the generated program','final outcome report','message traffic of the generated program'])
p('C02','The forbidden trace is always reported as a failure',
 "If the system under test goes through the whole prefix of a trace and then performs the forbidden event, the generated test for that trace follows every step and at that moment ends in failure, reports that test as failed and exits with status 1. This holds for every length of trace, every mixture of inputs, outputs and operation calls, repeated events, negative and non-negative integers that fit the generated C++ type, and text values with any characters.",
 ['inputs','histories'],'every forbidden trace with valued events (identifier-like test and channel names) and the environment history that performs it',
 'No existing test runs a generated program; a lost step, a wrong comparison or a wrong successor is invisible to the unit tests, which sample one one-event trace.',
 [T+'base/out_callback.cpp.tmpl',T+'base/state_entry.cpp.tmpl','internal/gen/cpp/func.go','internal/gen/gencommon/context.go','internal/stm/stm.go','internal/stm/builder.go','internal/stm/transition/set.go','internal/trace/expand.go','internal/trace/read.go'],
 [('value comparison in output callbacks',T+'base/out_callback.cpp.tmpl'),('aggregate transition sets per channel','internal/stm/transition/set.go AddToAggregateSets'),('state per non-fail node','internal/stm/builder.go processNode')],
 [('state_','current position',T+'base/stm.cpp.tmpl')],['exit status','final outcome report'])
p('C03','The reported outcome always matches the position reached in the trace',
 "The outcome a generated test reports for a trace is unset before the test starts, inconclusive while part of the prefix is still to come, passed once only the forbidden event is still to come, and failed once it has happened; a test that stops for any other reason keeps the outcome of the point it had reached. A test that carries several traces in one tree reports each trace's own outcome by the same rule.",
 ['inputs','histories','schedules'],'every trace or deterministic multi-trace tree x every environment history, stopped at every point',
 'Outcomes are computed from the children of a node, carried in the state machine, printed into C++ and applied at run time; the tests look at the outcomes of one two-state machine only.',
 ['internal/stm/state.go','internal/stm/verdict/verdict.go','internal/stm/builder.go',T+'base/state_entry.cpp.tmpl',T+'base/verdict.cpp.tmpl','internal/testlang/node.go','internal/trace/expand.go'],
 [('verdict of a state = outcomes of its outgoing nodes','internal/stm/state.go addVerdictsFromNode'),('verdict application on entry',T+'base/state_entry.cpp.tmpl')],
 [('verdict_','outcome per trace name',T+'base/verdict.cpp.tmpl'),('Verdict','test name to outcome map in a state','internal/stm/verdict/verdict.go')],['final outcome report','outcomes in the state machine file'])
p('C04','Every event moves a running test as the script says, or ends it as specified',
 "While a generated test is running, an event the script allows at that point moves it exactly one step; an output the script does not allow there ends it off-script, a timeout ends it as timed out, and an input acknowledgement while no input is awaiting one ends it as an internal error. Failure exits with status 1, internal error with 2, off-script and timed-out ends with 0, and nothing else ends a test.",
 ['inputs','schedules','histories'],'every state of every generated test x every environment event, including events before the test has started and values the script never mentions',
 'No test executes any callback of a generated program; the tables behind the callbacks are produced by templates that tests never expand.',
 [T+'base/out_callback.cpp.tmpl',T+'base/in_callback.cpp.tmpl',T+'base/stm.cpp.tmpl','internal/gen/cpp/embed/prelude/rtcg.cpp',T+'base/entry.cpp.tmpl','internal/gen/gencommon/context.go'],
 [('switch over state with off-script default',T+'base/out_callback.cpp.tmpl'),('end()',T+'base/stm.cpp.tmpl'),('exitCode','internal/gen/cpp/embed/prelude/rtcg.cpp')],
 [('status_','running/ended status',T+'base/stm.cpp.tmpl')],['exit status','status report of the generated program'])
p('C05','A test that has ended never changes again',
 "Once a generated test has ended, for whatever reason, no later event - an output, an acknowledgement, the start delay or a timeout, in any number and order - changes its status, its reported outcomes or its exit status, or makes it send anything more to the system under test.",
 ['schedules','histories'],'every history that ends a test followed by every sequence of further events already queued for it',
 'Needs callbacks delivered after the end, as a message queue does; no test delivers any callback.',
 [T+'base/stm.cpp.tmpl',T+'base/out_callback.cpp.tmpl',T+'base/in_callback.cpp.tmpl',T+'base/state_entry.cpp.tmpl'],
 [('guards on ended status in callbacks and end()',T+'base/stm.cpp.tmpl')],
 [('status_','ended status',T+'base/stm.cpp.tmpl')],['status, outcomes and published messages after each event'])
p('C06','The system under test is sent exactly the inputs of the script, in order',
 "A generated test sends the system under test each input of its script exactly once, in script order, on the topic named after its channel and with the converted value of the script, and only when the script has reached it: not before the start delay if the first event is an input, and never before every earlier event has been acknowledged or observed. It subscribes to exactly the channels its script can observe.",
 ['inputs','schedules','histories'],'every trace x every environment history; every channel name style (camel, Pascal, snake)',
 'Publishing happens only in generated ROS code, which the tests neither expand nor run.',
 [T+'base/state_entry.cpp.tmpl',T+'ros/main.cpp.tmpl',T+'base/stm.cpp.tmpl','internal/stm/state.go','internal/gen/gencommon/context.go','internal/strmanip/strmanip.go','internal/gen/cpp/func.go'],
 [('publish on state entry',T+'ros/main.cpp.tmpl input'),('start delay when first state has an input',T+'base/stm.cpp.tmpl'),('topic naming','internal/strmanip/strmanip.go ToLowerUnderscored')],
 [('FirstStateHasIn','whether the start is delayed','internal/gen/gencommon/context.go')],['messages published, topics advertised and subscribed'])
p('C07','Trace files are read exactly as written, or rejected as a whole',
 "Reading a trace file yields exactly one trace per line that is neither blank nor a comment, in file order, with the optional name before the first colon and one event per cell, the last being the forbidden one; spacing, quoting and letter case of the direction make no difference to the event meant, and integers and text values are told apart by their form. If any line cannot be read that way the whole file is rejected with an error and nothing is written.",
 ['inputs'],'every trace file (text), in particular quoting, whitespace, comments, names with several colons, extreme integers, missing or extra fields',
 'One three-line happy-path sample is tested; the reader combines a CSV reader, name cutting and event parsing whose corner cases are unbounded.',
 ['internal/trace/read.go','internal/testlang/event.go','internal/testlang/channel/channel.go','internal/testlang/channel/kind_enum.go','internal/testlang/value/value.go','internal/testlang/value/int.go','cmd/rtcg-read-traces/main.go'],
 [('CSV options','internal/trace/read.go newReader'),('cell to event','internal/testlang/event.go UnmarshalText'),('name cutting','internal/trace/read.go tryParseName')],
 [('trace list','traces read so far','internal/trace/read.go Read')],['standard output and exit status of the trace reader'])
p('C08','Every trace becomes exactly one test under its own unique name',
 "Every trace of a file ends up as exactly one test and no test appears from nowhere: a trace with a name other than 'test' keeps it unless an earlier trace has taken it, unnamed traces, traces named 'test' and repeated names get numbered names, and no two traces ever share a name or overwrite each other, whatever names the file uses.",
 ['inputs','histories'],'every sequence of explicit, missing, repeated and number-suffixed names',
 'One sequence of six names is tested; clashes depend on the order of explicit and synthesised names.',
 ['internal/trace/trace.go','internal/trace/expand.go','internal/structure/map.go','cmd/rtcg-read-traces/main.go'],
 [('first free numbered name','internal/trace/trace.go insertName, synthesiseName')],
 [('result map','names taken so far','internal/trace/trace.go Name')],['test names in the test suite file'])
p('C09','A test represents its trace exactly and can be turned back into it',
 "The test produced for a trace is a single branch that is inconclusive before every prefix event, passing before the forbidden event and failing after it, marked throughout with that test's name only and with the very events of the trace in order. Collapsing it gives back the same prefix and forbidden event, and collapsing rejects a test that branches or has an ill-formed node.",
 ['inputs'],'every forbidden trace; for collapsing, every test tree up to the enumerated bounds',
 'Expansion is tested on two traces and the round trip on four seeds of a fuzz target that is not fuzzed in the test run.',
 ['internal/trace/expand.go','internal/trace/collapse.go','internal/testlang/node.go','internal/validate/node.go','internal/validate/validate.go'],
 [('backwards expansion','internal/trace/expand.go Expand'),('in-place validated collapse','internal/trace/collapse.go')],
 [],['test suite file','result of collapsing'])
p('C10','Exactly the well-formed tests are accepted',
 "A test suite is turned into state machines only if every node of every test is well formed, at any depth: a root without event or outcome, every node marked with at least one test, every other node with an outcome, failing nodes without event or continuation, passing nodes with an event and exactly one continuation, inconclusive nodes with an event and at least one continuation. Every well-formed suite passes this check and a suite with a single ill-formed node anywhere is rejected with an error and no output.",
 ['inputs','programs'],'every test tree (any shape, any depth, any combination of node attributes) in suites of any size',
 'Only one valid tree is tested; rejection is not tested at all.',
 ['internal/validate/validate.go','internal/validate/node.go','internal/validate/suite.go','internal/testlang/walk.go','internal/structure/stack.go','internal/structure/map.go','cmd/rtcg-make-stms/main.go'],
 [('node checks','internal/validate/node.go'),('walk over the whole tree','internal/testlang/walk.go'),('suite validation','internal/validate/suite.go')],
 [('walk stack','nodes still to visit','internal/structure/stack.go')],['exit status and output of the state machine builder'])
p('C11','The state machine is an exact image of the test tree',
 "The state machine built for a well-formed test has exactly one state per non-failing node, the first being the root; every state has a unique identifier, the events leading out of it are exactly those of the node's continuations in order, grouped by channel and each leading to the state of that continuation, and its outcomes are exactly those its continuations give to each test. No transition leads to a missing state and the machine lists exactly the tests that occur in the tree.",
 ['inputs','programs'],'every well-formed test tree, linear or branching, with shared or distinct channels, one or many tests, with or without node identifiers of its own',
 'A single machine of two states is tested; numbering, stack order, grouping and cross-state links of larger trees are not.',
 ['internal/stm/builder.go','internal/stm/state.go','internal/stm/stm.go','internal/stm/transition/set.go','internal/stm/verdict/verdict.go','internal/structure/stack.go','internal/structure/set.go'],
 [('stack traversal','internal/stm/builder.go Build'),('identifier assignment before use','internal/stm/builder.go ensureNodeID'),('grouping by channel','internal/stm/transition/set.go AddToSets')],
 [('stack','nodes waiting to become states','internal/stm/builder.go'),('nodeNum','next generated identifier','internal/stm/builder.go')],['state machine suite file'])
p('C12','Channel types are the least type of all values seen, or the suite is rejected',
 "The type inferred for a channel is the least type covering every value the channel carries - natural if all are non-negative integers, integer if some integer is negative, enumeration if all are text - within one test for that test and over all tests for the suite, regardless of the order of events and tests. If a channel carries both integers and text anywhere in the suite, the suite is rejected with an error and no output.",
 ['inputs','configurations'],'every assignment of value kinds to channels over events, tests and orders',
 'Only the type of three single integers is tested; unification within and across tests, and conflicts, are not.',
 ['internal/testlang/rstype/unify.go','internal/testlang/rstype/arithmos.go','internal/testlang/rstype/rstype.go','internal/stm/builder.go','internal/testlang/value/int.go','internal/testlang/value/enum.go'],
 [('unification','internal/testlang/rstype/unify.go'),('per-test inference','internal/stm/builder.go inferEventType'),('cross-test inference','internal/stm/builder.go unifyTypes')],
 [('types','type so far per channel','internal/stm/builder.go')],['types in the state machine suite file'])
p('C13','Events keep their meaning from trace file to state machine',
 "Each event of a trace file denotes the same channel, direction and value in the test suite and in the state machine suite, and every file one stage writes is readable by the next stage without change of meaning, whatever characters names and values contain. An event that later stages could not represent is rejected when it is first read.",
 ['inputs'],'every event text accepted in a trace file: any characters in channel names and values, integers at the limits of their range, values that look like other syntax',
 'Marshalling is tested on three events and unmarshalling on about ten; nothing crosses a stage boundary.',
 ['internal/testlang/event.go','internal/testlang/channel/channel.go','internal/testlang/value/value.go','internal/testlang/value/enum.go','internal/testlang/value/int.go','internal/serial/serial.go','internal/testlang/testlang.go','internal/stm/suite.go','internal/stm/transition/transition.go'],
 [('text form of events','internal/testlang/event.go'),('JSON encoding','internal/serial/serial.go')],
 [],['test suite file','state machine suite file'])
p('C14','Generation writes the complete file set, and only below its output directory',
 "A successful generation run writes, for every configured variant, the support library, the conversion header, the user's conversion source unchanged if a configured channel needs it, and for every test its main program, plus the Makefile or the Catkin package files if configured - with or without channel overrides - and nothing else. No run, successful or not, and no test name makes it write outside the output directory or change its inputs, other than inputs it is asked to clean away because they lie in the output directory.",
 ['configurations','inputs'],'every configuration (variants, Makefile, Catkin, overrides, includes, input directory) x every suite, including hostile test names',
 'Only directory names of an empty suite are tested; no test runs a generator.',
 ['internal/gen/gen.go','internal/gen/cpp/cpp.go','internal/gen/cpp/copy.go','internal/gen/cpp/template.go','internal/gen/catkin/catkin.go','internal/gen/makefile/makefile.go','internal/gen/templating/set.go','internal/gen/gencommon/dirset.go','internal/gen/config/cpp/context.go','internal/gen/config/config.go','cmd/rtcg-gen/main.go'],
 [('directory creation','internal/gen/gen.go mkdirs'),('sub-generators','internal/gen/gen.go runSubgens'),('directory sets','internal/gen/gencommon/dirset.go')],
 [],['files below and around the output directory'])
p('C15','Regenerating into a used directory is predictable and cleaning is contained',
 "After any history of runs, a successful run leaves every file it generates with the content a fresh run would produce; with cleaning requested the output directory contains nothing else, without it every file the run does not generate is left as it was. A run that is refused because its arguments, state machines or configuration cannot be read changes nothing on disk, cleaning never removes anything outside the output directory, and a request to clean the current directory or one that contains it is refused. A run that fails or is stopped part way - by an unwritable path, a full device, a limit, or a kill - has changed no file but those it generates and, if cleaning, those it was asked to clean; it never reports success, and the next successful run is as good as any.",
 ['histories','configurations','fault_sequences'],'every sequence of successful, refused, failing and stopped runs with different suites, configurations and clean flags, mixed with files of the user',
 'No test runs the generator even once.',
 ['cmd/rtcg-gen/main.go','internal/gen/gen.go','internal/gen/cpp/copy.go','internal/gen/templating/templating.go'],
 [('clean before generation','cmd/rtcg-gen/main.go maybeClean'),('create-or-truncate of output files','internal/gen/templating/templating.go CreateFile, internal/gen/cpp/copy.go writeFile')],
 [('output directory','files left by earlier runs','file system')],['file tree after each run'])
p('C16','Generated projects build and use the configured conversions and includes',
 "For every suite with identifier-like names, the generated Makefile builds every animated test with no file missing, and the generated ROS package builds where each numeric channel has a configured type, with or without conversion code from the user. A channel with a configured type is converted by the user's functions with exactly the inferred native type, all other channels by generated ones, and configured headers are included in the configured form and order.",
 ['configurations','inputs'],'every suite x every combination of channel overrides, includes and build systems',
 'No test compiles, or even expands, a template.',
 [T+'base/convert/convert_base.h.tmpl',T+'base/includes.cpp.tmpl',T+'ros/convert/convert.h.tmpl',T+'animate/convert/convert.h.tmpl','internal/gen/makefile/embed/templates/Makefile.tmpl','internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl','internal/gen/config/cpp/context.go','internal/gen/cpp/func.go'],
 [('conversion declarations or definitions per channel',T+'base/convert/convert_base.h.tmpl'),('override map','internal/gen/config/cpp/context.go Process')],
 [],['result of building the generated projects','conversion calls made by the built tests'])
p('C17','Catkin package metadata is filled in and expanded per test',
 "Each test's Catkin package manifest carries every configured field with each occurrence of the name placeholder in name, description, maintainer and licence replaced by that test's name, documented defaults for the fields left out, format 2, and the configured dependencies in order; the build file names the same package and the same dependencies. One test's name never shows up in another test's package.",
 ['configurations','inputs'],'every combination of present and absent fields, placeholder positions and counts, dependency lists and tests',
 'Defaults and expansion are tested on one package each; nothing writes or reads back a manifest or generates for two tests.',
 ['internal/gen/config/catkin/package.go','internal/gen/catkin/catkin.go','internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl','internal/gen/config/config.go'],
 [('defaults and expansion','internal/gen/config/catkin/package.go Autofill, Expand'),('copy per test','internal/gen/catkin/catkin.go generateTest')],
 [],['package.xml and CMakeLists.txt of every test'])
p('C18','A test does not depend on its neighbours, and runs are repeatable',
 "The test, the state machine and the generated program of a trace are the same whether it is processed alone or in a file with any other traces and at any position, apart from its number if it has no name and channel types shared by the suite. Running the same stage again on the same input gives the same result, apart from the time stamp and the order of unordered lists.",
 ['inputs','histories'],'every suite and every sub-suite, permutation and repetition of it',
 'Tests build one machine with a fresh builder; the builder and generators are reused across tests and iterate over maps in random order.',
 ['internal/stm/builder.go','internal/trace/expand.go','internal/gen/cpp/cpp.go','internal/structure/map.go','internal/structure/stack.go','internal/gen/gencommon/context.go'],
 [('builder reset per test','internal/stm/builder.go Build'),('per-test context','internal/gen/gencommon/context.go NewContext')],
 [('builder','counter, stack and machine reused between tests','internal/stm/builder.go')],['test suite, state machine suite and generated programs'])
p('C19','A stage that cannot do its work says so and hands nothing on',
 "Every stage given input it cannot open, read or use - missing files, wrong arguments, truncated or malformed content at any point, absent tests - exits with a non-zero status and an error message, without crashing and without writing a result the next stage would take for its input, and the pipeline as a whole then fails too. Reading from a named file, from standard input by default and from '-' are equivalent.",
 ['fault_sequences','inputs','crash_points'],'every stage x every kind of faulty input, in particular a valid file cut off at every byte',
 'No test runs a command; error paths are untested.',
 ['internal/cli/cli.go','internal/serial/serial.go','cmd/rtcg-read-traces/main.go','cmd/rtcg-make-stms/main.go','cmd/rtcg-gen/main.go','internal/validate/validate.go','rtcg.sh'],
 [('error exit','internal/cli/cli.go HandleError'),('JSON reading','internal/serial/serial.go ReadJSON')],
 [],['exit status, standard output and standard error of each command'])
p('C20','The animated test agrees with the ROS test and stops with its input',
 "For the same test and the same sequence of events, the animated program reaches the same end status, exit status and outcomes as the ROS program, ignoring only requests it does not offer at that point. It terminates whenever its input ends or cannot be read, without reporting a failure that did not happen.",
 ['inputs','schedules','histories'],'every trace x every sequence of commands typed at the prompt, including unknown commands, unreadable values and end of input anywhere',
 'No test runs the animated program.',
 [T+'animate/main_body.cpp.tmpl',T+'animate/main.cpp.tmpl',T+'base/entry.cpp.tmpl',T+'animate/convert/convert.h.tmpl'],
 [('command loop',T+'animate/main_body.cpp.tmpl')],
 [('status','status read at each prompt',T+'animate/main_body.cpp.tmpl')],['exit status and final outcome report of the animated program'])
p('C21','Grouping traces by what may follow a prefix is exact',
 "Asking which tests can fail right after a given sequence of events returns exactly the tests whose prefix equals that sequence, each once, with its own forbidden event; the spine nodes built from them put every input failure on its own branch and all other failures together on one branch, each headed by the last event of the sequence and each containing the passing node, event and failure of its test. Equality and prefix tests on traces are exact on channel, direction and value.",
 ['inputs'],'every set of traces and every sequence of events',
 'The factorisation code has no tests.',
 ['internal/factorise/factorise.go','internal/trace/trace.go','internal/testlang/event.go','internal/testlang/value/value.go','internal/testlang/channel/channel.go'],
 [('failure selection','internal/factorise/factorise.go Failures'),('spine construction','internal/factorise/factorise.go SpineNodes'),('equality','internal/trace/trace.go Equals, IsPrefixOf')],
 [],['results of the factorisation functions'])
p('C22','A generated program does exactly what its state machine says',
 "For any state machine file - with loops, joined branches, unreachable states, several outputs per state, channels of any type, several tests per machine and states that leave out their verdicts - the generated program, on every sequence of events, has the status, exit status and outcomes the machine gives (the outcome of a test is that of the latest state entered that mentions it), sends what the machine sends, observes the channels the machine observes, and its log names the states entered, in order.",
 ['inputs','histories','schedules'],'every state machine file with identifier-like distinct state names whose transitions lead to existing states, at most one input per state, x every sequence of events',
 'No test runs the generator on a state machine, let alone compiles and runs its result; machines that rtcg-make-stms does not write are accepted by rtcg-gen but tried nowhere.',
 [T+'base/stm.cpp.tmpl',T+'base/out_callback.cpp.tmpl',T+'base/in_callback.cpp.tmpl',T+'base/state_entry.cpp.tmpl',T+'base/verdict.cpp.tmpl',T+'ros/main.cpp.tmpl',T+'animate/main_body.cpp.tmpl','internal/gen/gencommon/context.go','internal/gen/cpp/context.go','internal/stm/suite.go','internal/stm/state.go','internal/stm/transition/set.go'],
 [('aggregation of transition sets per channel','internal/gen/gencommon/context.go'),('switch over states',T+'base/out_callback.cpp.tmpl'),('verdicts filled in','internal/stm/suite.go')],
 [('state_','current state',T+'base/stm.cpp.tmpl'),('verdict_','outcome per test',T+'base/verdict.cpp.tmpl')],['exit status, outcomes, messages and log of the generated program'])
p('C23','A test left alone starts by itself, runs out of time and stops',
 "A generated ROS test that hears nothing more always comes to an end by itself: if its first event is an input it sends that input once the start delay has passed, a test whose machine can go no further or that waits for an event longer than the time limit ends with the outcomes of the point it had reached, and the program stops when, and only when, the test has ended.",
 ['schedules','histories'],'every trace and every point of every history at which the environment falls silent',
 'Timers and shutdown exist only in generated ROS code, which the tests never run.',
 [T+'ros/main.cpp.tmpl',T+'base/stm.cpp.tmpl',T+'base/entry.cpp.tmpl',T+'base/state_entry.cpp.tmpl'],
 [('start and time-out timers',T+'ros/main.cpp.tmpl'),('shutdown at the end',T+'ros/main.cpp.tmpl')],
 [('status_','waiting, running or ended',T+'base/stm.cpp.tmpl')],['messages sent, status, outcomes and end of the generated program'])
p('C24','Variants and stages compose: each does its part as it would alone',
 "When several variants are configured, what is generated for each is exactly what would be generated with only that variant configured, in whatever order they are listed, and nothing is generated beside them. Running the pipeline script on a configuration and a traces file, or on traces from standard input, generates exactly what running the three stages by hand one after the other generates, and fails exactly if that fails, whatever the names of the files, however large they are and wherever the script lies, and leaves nothing else behind.",
 ['configurations','inputs','schedules'],'every configuration of several variants x every suite; every traces file x every way of giving it to the pipeline',
 'No test configures two variants and generates, and none runs the pipeline script; parts of a generator share code and templates that are parsed once.',
 ['internal/gen/gen.go','internal/gen/cpp/cpp.go','internal/gen/templating/set.go','internal/gen/templating/templating.go','internal/gen/gencommon/dirset.go','internal/gen/config/config.go','internal/gen/config/cpp/context.go','internal/gen/catkin/catkin.go','internal/gen/makefile/makefile.go','rtcg.sh','internal/cli/cli.go'],
 [('sub-generators per variant','internal/gen/gen.go initCpp'),('pipeline','rtcg.sh main'),('input selection','internal/cli/cli.go')],
 [],['files below the output directory','exit status of the pipeline'])
p('C25','What a running test tells its user is what happens',
 "The log of a generated program names, in order, each state entered with the input sent or the outputs that can be received there (channel, value, next state), each change of an outcome from what to what, each acknowledgement, start delay and timeout that took effect, and each value that took the test off-script. The animated prompt offers 'ready' and 'accept' exactly when they are taken, lists all output channels with their types, apologises exactly for what it cannot take, and asks until the test ends.",
 ['inputs','histories'],'every state machine file within the bounds of C22 x every sequence of events or typed commands',
 'Logs and prompts are text expanded from templates that no test expands, at run time of programs that no test compiles.',
 [T+'base/state_entry.cpp.tmpl',T+'base/out_callback.cpp.tmpl',T+'base/in_callback.cpp.tmpl',T+'base/stm.cpp.tmpl',T+'base/verdict.cpp.tmpl',T+'animate/main_body.cpp.tmpl',T+'animate/main.cpp.tmpl',T+'ros/main.cpp.tmpl','internal/gen/cpp/func.go'],
 [('announcements on state entry',T+'base/state_entry.cpp.tmpl'),('prompt',T+'animate/main_body.cpp.tmpl'),('changes of outcomes',T+'base/verdict.cpp.tmpl')],
 [('state_','current state',T+'base/stm.cpp.tmpl'),('status_','what the prompt depends on',T+'base/stm.cpp.tmpl')],['log and standard output of the generated program'])
p('C26','What a file means does not depend on how it is written',
 "Two files that say the same give the same result, or are both refused, whichever way they are written. For files of traces: blanks around the parts of an event, quoting, comments, blank lines, line ends, letter case of directions, signs and leading zeros of integers. For suites of tests and of state machines: white space of any length, the order of members, escapes in texts (pairs of surrogates among them), members that are absent, null or empty. For configurations: quotes and order of attributes, white space, comments, processing instructions, CDATA sections, references, empty-element tags, and the order of elements of different names.",
 ['inputs'],'every file a stage reads x every way of writing what it says',
 'Tests hold one rendering of each of a few files, mostly as the tools write them; files also come from other tools and from people, who write the same in endlessly many ways.',
 ['internal/serial/serial.go','internal/gen/config/config.go','internal/trace/read.go','internal/testlang/node.go','internal/testlang/event.go','internal/testlang/value/value.go','internal/testlang/channel/channel.go','internal/stm/stm.go','internal/stm/suite.go','internal/structure/set.go','internal/gen/config/cpp/cpp.go','internal/gen/config/catkin/package.go'],
 [('JSON reader','internal/serial/serial.go ReadJSON'),('XML reader','internal/gen/config/config.go'),('trace reader','internal/trace/read.go')],
 [],['output of each stage','files below the output directory','exit status'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
