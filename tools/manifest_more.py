TEXT = ('The reader, written as a machine over characters, is model-checked against a writer; all files of a small alphabet, all single edits of '
        'samples and random files are read by the real program and each result is checked by TLC against the same operators.')
check('C07', MC % ('TraceFile', 'results of the real reader on enumerated and random files checked by TLC (TraceC07)'), TEXT)
check('C08', MC % ('Naming', 'its laws (NamingSteps) proved with TLAPS for files of any size and refined; names given by the real program to all short and many long sequences of wanted names checked by TLC (TraceC08)'),
      'All sequences of wanted names up to a length over an alphabet made of colliding names, and random ones.')
check('C13', MC % ('TraceFile', 'files run through all three stages, what each stage wrote checked by TLC against one reading (TraceC13)'),
      TEXT + ' Generation is tried for tests with identifier-like names.')
TREES = ('Tests.tla defines well-formedness, expansion, collapsing, types, machine images and grouping over trees; their mutual laws are model-checked on '
         'all trees of a few nodes; every result of the real code, on all small trees, random ones and single planted defects, is checked by TLC.')
for p, what in (('C09', 'tests written by rtcg-read-traces and results of Expand/Collapse'), ('C10', 'acceptance and rejection by rtcg-make-stms'),
                ('C11', 'machines written by rtcg-make-stms'), ('C12', 'types inferred by rtcg-make-stms'),
                ('C21', 'results of Failures, SpineNodes, Equals and IsPrefixOf')):
    check(p, MC % ('Tests', what + ' checked by TLC (TraceTests)'), TREES)
GEN = ('GenFs.tla says which files a configuration and a suite lead to and what a run, with or without cleaning, makes of a directory tree; histories of runs, '
       'with file-level steps, are model-checked; every run of the real generator is judged by TLC from snapshots of the whole tree before and after.')
check('C14', MC % ('GenFs', 'snapshots around runs of rtcg-gen checked by TLC (TraceGenFs)'), GEN)
check('C15', MC % ('GenFs', 'snapshots around every step of random histories of runs and edits checked by TLC (TraceGenFs)'), GEN)
check('C16', MC % ('Project', 'projects generated, built with make or cmake and probed, every observation checked by TLC (TraceProject)'),
      'Project.tla says which targets, types, includes and conversions a configuration and a suite lead to; its laws are model-checked; random configurations are generated and '
      'really built (ROS and catkin headers are stand-ins), and what is built is compared by TLC.')
check('C17', MC % ('Catkin', 'package.xml and CMakeLists.txt as read by independent readers checked by TLC (TraceCatkin)'),
      'Catkin.tla says what the files of a package must contain for a configuration; package.xml is parsed and CMakeLists.txt is run by the real cmake with recording commands.')
check('C18', MC % ('Independence', 'results for tests alone, in company, in any order and again compared by TLC (TraceIndependence)'),
      'A builder working through a suite in any order is model-checked against one per test; every stage is run on tests alone and together.')
check('C19', MC % ('Stages', 'runs on inputs cut off at every byte, edited and mistyped, and with faults planted around them, checked by TLC (TraceStages)'),
      'Recognisers of JSON, XML and trace files decide which inputs must be refused; a pipe of stages that break down anywhere is model-checked; real stages and the real pipeline are run.')
check('C22', MC % ('Machine', 'random machines generated, compiled and run; status, exit status, outcomes, messages, subscriptions and states logged checked by TLC (TraceMachine)'),
      'Machine.tla runs any state machine; MCImage shows that on the machines built from trees (Builder.tla) it agrees with Driver.tla in lockstep; random machines with loops, joins, '
      'unreachable states and missing verdicts are generated for ROS and animation and fed random and exhaustive short schedules.')
check('C23', MC % ('MCClock', 'compiled tests left alone at every point of many schedules in virtual time, checked by TLC (TraceDriver)'),
      'Clock model with start delay and time-out, liveness (every silent test ends) checked by TLC; the compiled programs run against a mock of ROS whose timers fire in virtual time.')
check('C24', MC % ('Compose', 'variants generated alone and together, stages run by hand and as a pipeline, compared by TLC (TraceCompose)'),
      'A generator that sets up all parts before running them (MCCompose) and a pipe of stages with bounded buffers (MCPipe) are model-checked against their parts; random '
      'configurations of two variants in both orders, and rtcg.sh on random, odd and large files given in every way, are compared by TLC.')
check('C25', MC % ('Story', 'logs and prompts of generated programs, read into facts, checked by TLC (TraceStory)'),
      'Story.tla says what each step of a machine tells; MCStory shows that a reader of it knows the run. Random machines and real ones are generated for ROS and animation, and what '
      'they log and ask after every schedule is read into facts and compared. Trusts the wording of the log.')
check('C26', MC % ('JsonValue, XmlValue and TraceFile', 'pairs of files that TLC confirms to say the same run through the real stages, results compared (TraceNotation)'),
      'Readers of JSON and XML over characters that say what a file means are model-checked to undo every way of writing small values (MCNotation); random suites and configurations '
      'are written in many ways, TLC confirms that they say the same, and what the stages make of them has to be the same.')
