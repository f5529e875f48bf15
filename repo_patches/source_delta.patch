From 22f758dabc21d06ccbf30ee2f8368f7b49f774a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 01/20] fix: create the convert directory and include it even
 without channel overrides

The conversion header is always generated and included, but its directory was
only created, and only put on the Makefile's include path, if some channel type
was overridden: without overrides generation failed.
---
 internal/gen/cpp/copy.go                            | 2 ++
 internal/gen/cpp/cpp.go                             | 7 +++++++
 internal/gen/makefile/embed/templates/Makefile.tmpl | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index a042401..7d4ae12 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -20,6 +20,8 @@ const (
 	convertDir   = "convert"       // convertDir is the subdirectory where we store the conversion code.
 	preludeDir   = "rtcg"          // preludeDir is the subdirectory where we store the prelude.
 	preludeMount = "embed/prelude" // preludeMount is the directory in prelude where the prelude is.
+
+	convertDirPerms = 0o754 // convertDirPerms is the permission mask of the conversion directory.
 )
 
 func (g *Generator) copyPrelude() error {
diff --git a/internal/gen/cpp/cpp.go b/internal/gen/cpp/cpp.go
index 200c788..8ab55c5 100644
--- a/internal/gen/cpp/cpp.go
+++ b/internal/gen/cpp/cpp.go
@@ -3,6 +3,7 @@ package cpp
 
 import (
 	"fmt"
+	"os"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
@@ -95,6 +96,12 @@ func (o *OnSuite) Generate() error {
 }
 
 func (o *OnSuite) generateCommon() error {
+	// The conversion header is generated whether or not there is any user-supplied conversion.
+	dir := o.parent.srcDirSet.OutputPath(convertDir)
+	if err := os.MkdirAll(dir, convertDirPerms); err != nil {
+		return fmt.Errorf("couldn't make conversion directory at %q: %w", dir, err)
+	}
+
 	if err := o.copyConvertFile(); err != nil {
 		return err
 	}
diff --git a/internal/gen/makefile/embed/templates/Makefile.tmpl b/internal/gen/makefile/embed/templates/Makefile.tmpl
index 736e716..5255832 100644
--- a/internal/gen/makefile/embed/templates/Makefile.tmpl
+++ b/internal/gen/makefile/embed/templates/Makefile.tmpl
@@ -1,6 +1,6 @@
 {{- define "output" -}}bin/{{ . }}{{- end -}}
 {{- define "reg_inputs" -}}src/{{ . }}/src/main.cpp src/rtcg/rtcg.cpp{{- end -}}
-{{- define "iconvert" -}}{{- if .HasConversion }} -Isrc/convert{{- end -}}{{- end -}}
+{{- define "iconvert" }} -Isrc/convert{{ end -}}
 {{- define "convert" -}}{{- if .HasConversion }} src/convert/convert.cpp{{- end -}}{{- end -}}
 
 .POSIX:
-- 
2.43.0


From e7fcc89855f7619cfb1a6b73f564db949e8d434d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 02/20] fix: don't name convert.cpp in Catkin packages without
 conversion code

Without a channel override no convert.cpp is generated, so the package could
not be built.
---
 internal/gen/catkin/catkin.go                  | 18 ++++++++++++++----
 .../catkin/embed/templates/CMakeLists.txt.tmpl | 10 +++++++++-
 internal/gen/gen.go                            |  2 +-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/internal/gen/catkin/catkin.go b/internal/gen/catkin/catkin.go
index 56098b3..91986ec 100644
--- a/internal/gen/catkin/catkin.go
+++ b/internal/gen/catkin/catkin.go
@@ -8,6 +8,7 @@ import (
 	"path/filepath"
 
 	cfg "github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
+	"github.com/UoY-RoboStar/rtcg/internal/gen/config/cpp"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/gencommon"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/subgen"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/templating"
@@ -17,19 +18,20 @@ import (
 // Generator is a Catkin auxiliary file generator.
 type Generator struct {
 	config    cfg.Config       // config is the user-supplied configuration.
+	cppConfig cpp.Config       // cppConfig is the C++ configuration.
 	srcDirSet gencommon.DirSet // srcBaseDir is the source directory set for this Catkin workspace.
 
 	cmakeGen *templating.Generator // cmakeGen is the generator for CMakeLists.txt.
 }
 
-// New creates a new Catkin generator with the given configuration.
-func New(config *cfg.Config, dirs gencommon.DirSet) (*Generator, error) {
+// New creates a new Catkin generator with the Catkin configuration in the given C++ configuration.
+func New(config *cpp.Config, dirs gencommon.DirSet) (*Generator, error) {
 	tg, err := NewTemplatedGenerator()
 	if err != nil {
 		return nil, err
 	}
 
-	gen := Generator{config: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
+	gen := Generator{config: *config.Catkin, cppConfig: *config, srcDirSet: dirs.Subdir("src"), cmakeGen: tg}
 
 	if gen.config.Package == nil {
 		var pkg cfg.Package
@@ -49,6 +51,7 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 	return &OnSuite{
 		parent: g,
 		suite:  suite,
+		cctx:   g.cppConfig.Process(suite.Types),
 	}
 }
 
@@ -56,6 +59,7 @@ func (g *Generator) OnSuite(suite *stm.Suite) subgen.OnSuite {
 type OnSuite struct {
 	parent *Generator
 	suite  *stm.Suite
+	cctx   cpp.Context
 }
 
 func (o *OnSuite) Parent() subgen.Subgenerator {
@@ -88,13 +92,19 @@ func (o *OnSuite) generateTest(dirs gencommon.DirSet, name string) error {
 		return err
 	}
 
-	if err := o.parent.cmakeGen.Generate(dirs.Output, pkg); err != nil {
+	if err := o.parent.cmakeGen.Generate(dirs.Output, Context{Package: pkg, Context: o.cctx}); err != nil {
 		return fmt.Errorf("generating cmake: %w", err)
 	}
 
 	return nil
 }
 
+// Context is the context passed into the CMake template.
+type Context struct {
+	cfg.Package // Package is the expanded metadata of the package.
+	cpp.Context // Context is the C++ context.
+}
+
 func generatePackageXML(dir string, pkg cfg.Package) error {
 	file, err := os.Create(filepath.Join(dir, "package.xml"))
 	if err != nil {
diff --git a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
index 49f8b2f..0b4dfb9 100644
--- a/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
+++ b/internal/gen/catkin/embed/templates/CMakeLists.txt.tmpl
@@ -1,7 +1,7 @@
 {{- /*
 CMakeLists.txt.tmpl is the template for generating top-level CMakeLists for each package.
 
-It takes the package.xml as dot.
+It takes a context with the package.xml and the C++ context as dot.
 */ -}}
 cmake_minimum_required(VERSION 3.0.2)
 project({{ .Name }})
@@ -31,17 +31,21 @@ include_directories(
     ../rtcg/
 )
 
+{{ if .HasConversion -}}
 add_library(convert
     ../convert/convert.cpp
 )
 
+{{ end -}}
 add_library(rtcg
     ../rtcg/rtcg.cpp
 )
 
 add_executable(${PROJECT_NAME}_node
     src/main.cpp
+{{- if .HasConversion }}
     ../convert/convert.cpp
+{{- end }}
     ../rtcg/rtcg.cpp
 )
 
@@ -50,12 +54,16 @@ set_target_properties(${PROJECT_NAME}_node PROPERTIES OUTPUT_NAME node PREFIX ""
 add_dependencies(${PROJECT_NAME}_node
     ${${PROJECT_NAME}_EXPORTED_TARGETS}
     ${catkin_EXPORTED_TARGETS}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
 
 target_link_libraries(${PROJECT_NAME}_node
     ${catkin_LIBRARIES}
+{{- if .HasConversion }}
     convert
+{{- end }}
     rtcg
 )
\ No newline at end of file
diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index f6d5213..b6900ae 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -79,7 +79,7 @@ func initCppCatkin(config *cfg.Config, dirs gencommon.DirSet) ([]subgen.Subgener
 		return nil, nil
 	}
 
-	gen, err := catkin.New(config.Catkin, dirs)
+	gen, err := catkin.New(config, dirs)
 	if err != nil {
 		return nil, fmt.Errorf("couldn't init Catkin generator: %w", err)
 	}
-- 
2.43.0


From 34801588ff9f8c487ccc9d88593bfebe071d0ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 03/20] fix: ignore outputs and acknowledgements once a test
 has ended

A matching output or acknowledgement arriving after the end re-opened the
test, and could make it report a failure that did not happen. Also, an
acknowledgement before any input was sent was taken as one for the first input.
---
 .../cpp/embed/templates/base/in_callback.cpp.tmpl    | 12 ++++++++++++
 .../cpp/embed/templates/base/out_callback.cpp.tmpl   |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
index 1bc8edc..55b22f7 100644
--- a/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/in_callback.cpp.tmpl
@@ -5,6 +5,18 @@ It expects a state/transition map.
 
 Base indent is set at 2, as we are inside a top-level function.
 */}}
+  // Don't acknowledge this callback if the test has ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+
+  if (status_ != rtcg::Status::WAIT_IN)
+  {
+    // We shouldn't be seeing an input acknowledgement if we haven't sent an input.
+    {{ template "log" "error" }}"Accepted input in unexpected state " << stateName(){{ template "end_log" }}
+    end(rtcg::Status::BUG);
+    return;
+  }
+
   switch (state_)
   {
 {{- range $s, $ts := . }}
diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index 491ed23..c433600 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -5,6 +5,10 @@ It expects the output aggregate transition set as its dot.
 
 Base indent is set at 2, as we are inside a top-level function.
 */}}
+  // Don't acknowledge this callback if the test has ended.
+  if (!rtcg::status::isRunning(status_))
+    return;
+
   auto value = {{ cppConvertFrom $.Channel.Name }}(msg);
 
   switch (state_)
-- 
2.43.0


From 316d70a5333b8545c97a7a504c2f9a4cc047ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:55 +0000
Subject: [PATCH 04/20] fix: escape enumeration values in generated string
 literals

A value containing quotes, backslashes, control characters or trigraphs
produced code that didn't compile or didn't match the value.
---
 .../templates/base/out_callback.cpp.tmpl      |  2 +-
 .../embed/templates/base/state_entry.cpp.tmpl |  4 +--
 internal/gen/cpp/func.go                      | 30 ++++++++++++++++++-
 3 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
index c433600..3220666 100644
--- a/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/out_callback.cpp.tmpl
@@ -19,7 +19,7 @@ Base indent is set at 2, as we are inside a top-level function.
     {{ if ne $i 0 }}else {{ end }}if (
 {{-     $ty := $t.Value.Type -}}
 {{-     if $ty.IsEnum -}}
-    value.compare("{{ $t.Value.StringValue }}") == 0
+    value.compare({{ cppValue $t.Value }}) == 0
 {{-     else -}}
     value == {{ $t.Value.StringValue }}
 {{-     end -}}
diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index 69683d9..ea2056d 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -22,7 +22,7 @@ Base indent is set at 2, as we are inside a top-level function.
 
 {{-   with .In }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' sends {{ .Value.StringValue }} to SUT on {{ .Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' sends " {{ cppStringLit .Value.StringValue }} " to SUT on {{ .Channel.Name }}; " <<
     "if accepted, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{      template "input" . -}}
 {{-   end }}
@@ -35,7 +35,7 @@ Base indent is set at 2, as we are inside a top-level function.
 {{-  range $outSet := .TransitionSets }}
 {{-    range index .Transitions }}
 
-  {{ template "log" "info" }}"State '{{ $.ID }}' can receive {{ .Value.StringValue }} from SUT on {{ $outSet.Channel.Name }}; " <<
+  {{ template "log" "info" }}"State '{{ $.ID }}' can receive " {{ cppStringLit .Value.StringValue }} " from SUT on {{ $outSet.Channel.Name }}; " <<
     "if received, next state will be '{{ .Next }}'."{{ template "end_log" }}
 {{-    end }}
 {{-  end }}
diff --git a/internal/gen/cpp/func.go b/internal/gen/cpp/func.go
index 80a58a6..3939228 100644
--- a/internal/gen/cpp/func.go
+++ b/internal/gen/cpp/func.go
@@ -23,6 +23,7 @@ func Funcs() template.FuncMap {
 		"cppOutcomeEnum":      OutcomeEnum,
 		"cppStateEntry":       StateEntry,
 		"cppStateEnum":        StateEnum,
+		"cppStringLit":        StringLit,
 		"cppTestEnum":         TestEnum,
 		"cppType":             StdType,
 		"cppValue":            Value,
@@ -107,12 +108,39 @@ func Value(val value.Value) string {
 	typ := val.Type()
 
 	if typ.IsEnum() {
-		return fmt.Sprintf("\"%s\"", val.StringValue())
+		return StringLit(val.StringValue())
 	}
 
 	return val.StringValue()
 }
 
+// StringLit gets a C++ string literal for the given string.
+func StringLit(str string) string {
+	var build strings.Builder
+
+	_ = build.WriteByte('"')
+
+	for i := 0; i < len(str); i++ {
+		char := str[i]
+
+		switch {
+		case char == '"' || char == '\\' || char == '?':
+			// We escape '?' to make sure we don't make any trigraphs.
+			_ = build.WriteByte('\\')
+			_ = build.WriteByte(char)
+		case char < ' ' || char == 0x7F:
+			// Octal escapes are at most three digits long, so this can't swallow any following characters.
+			_, _ = fmt.Fprintf(&build, "\\%03o", char)
+		default:
+			_ = build.WriteByte(char)
+		}
+	}
+
+	_ = build.WriteByte('"')
+
+	return build.String()
+}
+
 func rtcgEnumName(name string, variant any) string {
 	return "rtcg::" + localEnumName(name, variant)
 }
-- 
2.43.0


From 2cfd33934b0045f5d9f560f561ef5fe2d4eaa288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 05/20] fix: stop the animator when its input ends or can't be
 read

It used to loop forever at the end of its input, and to take an unreadable
value for zero, which could be the forbidden value.
---
 .../cpp/embed/templates/animate/main_body.cpp.tmpl  | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
index 8619c66..08f40e4 100644
--- a/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/animate/main_body.cpp.tmpl
@@ -26,7 +26,12 @@
 
     std::cout << "\n> ";
     std::string choice;
-    std::cin >> choice;
+    if (!(std::cin >> choice))
+    {
+      // There won't be any further events, so don't wait for them.
+      stm.timeoutCallback();
+      break;
+    }
 
     if (choice == "timeout")
       stm.timeoutCallback();
@@ -44,7 +49,11 @@
     else if (choice == "{{ $cn }}")
     {
       {{ cppType $ctype.Base }} in;
-      std::cin >> in;
+      if (!(std::cin >> in))
+      {
+        stm.timeoutCallback();
+        break;
+      }
 
       stm.{{ cppCallbackName .Channel.Name }}({{ cppConvertTo .Channel.Name }}(in));
     }
-- 
2.43.0


From ec56b30ced1a1dce211dc199edf60e9f7fa56576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/20] fix: reject channels with empty names

Such an event was accepted from a trace file, but was then written without its
channel, so the next stage could not read it.
---
 internal/testlang/channel/channel.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/testlang/channel/channel.go b/internal/testlang/channel/channel.go
index f14d49e..3c82a04 100644
--- a/internal/testlang/channel/channel.go
+++ b/internal/testlang/channel/channel.go
@@ -5,6 +5,7 @@ package channel
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"strings"
 )
@@ -115,6 +116,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	}
 
 	c.Name = string(bytes.TrimSpace(fields[0]))
+	if c.Name == "" {
+		return nil, ErrNoName
+	}
 
 	kindBytes := bytes.TrimSpace(fields[1])
 	if err := c.Kind.UnmarshalText(kindBytes); err != nil {
@@ -128,6 +132,9 @@ func (c *Channel) UnmarshalTextWithRemainder(text []byte) ([]byte, error) {
 	return fields[numEventParts-1], nil
 }
 
+// ErrNoName occurs when a channel has an empty name.
+var ErrNoName = errors.New("channel needs a non-empty name")
+
 // BadFieldCountError is the error when the number of '.' delimited fields in an Event or Channel is not valid.
 type BadFieldCountError struct {
 	Got int // Got is the number of fields we got.
-- 
2.43.0


From 38fb365acd08915bef86cab1ab3681dd2aae7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 07/20] fix: report missing tests, state machines and states as
 errors

Null entries in test and state machine suites crashed the tools.
---
 internal/stm/suite.go         | 30 ++++++++++++++++++++++++++++++
 internal/validate/errors.go   |  3 +++
 internal/validate/validate.go |  4 ++++
 3 files changed, 37 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 4504d22..8968ad6 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -1,6 +1,7 @@
 package stm
 
 import (
+	"errors"
 	"fmt"
 	"io"
 
@@ -21,9 +22,38 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	if err := suite.checkComplete(); err != nil {
+		return nil, fmt.Errorf("incomplete state machine suite: %w", err)
+	}
+
 	return &suite, nil
 }
 
+// checkComplete checks that s doesn't have any missing state machines or states.
+func (s *Suite) checkComplete() error {
+	for name, test := range s.Tests {
+		if test == nil || len(test.States) == 0 {
+			return fmt.Errorf("%s: %w", name, ErrNoStates)
+		}
+
+		for _, state := range test.States {
+			if state == nil {
+				return fmt.Errorf("%s: %w", name, ErrNilState)
+			}
+		}
+	}
+
+	return nil
+}
+
+var (
+	// ErrNoStates occurs when a state machine read as part of a suite is missing, or has no states.
+	ErrNoStates = errors.New("state machine should have at least one state")
+
+	// ErrNilState occurs when a state of a state machine read as part of a suite is missing.
+	ErrNilState = errors.New("state should not be null")
+)
+
 // Write pretty-prints a state machine suite, as JSON, into writer w.
 func (s *Suite) Write(w io.Writer) error {
 	if err := serial.WriteJSON(w, s); err != nil {
diff --git a/internal/validate/errors.go b/internal/validate/errors.go
index 8cd3067..a13025d 100644
--- a/internal/validate/errors.go
+++ b/internal/validate/errors.go
@@ -24,6 +24,9 @@ var (
 	// ErrNoOutcome occurs when a non-root node has no outcome.
 	ErrNoOutcome = errors.New("non-root node should have an outcome set")
 
+	// ErrNoRoot occurs when a test is missing entirely.
+	ErrNoRoot = errors.New("test should have a root node")
+
 	// ErrNoTests occurs when a node has no tests set.
 	ErrNoTests = errors.New("node should belong to at least one test")
 
diff --git a/internal/validate/validate.go b/internal/validate/validate.go
index 9d26ad1..e99c1cb 100644
--- a/internal/validate/validate.go
+++ b/internal/validate/validate.go
@@ -20,6 +20,10 @@ func (t Test) Root() *testlang.Node {
 // Full performs a full validation of the test starting at root.
 // If successful, it returns a Test.
 func Full(root *testlang.Node) (*Test, error) {
+	if root == nil {
+		return nil, fmt.Errorf("failed to validate test: %w", ErrNoRoot)
+	}
+
 	// TODO: check test monotonicity and partitioning
 	err := testlang.Walk(root, func(node *testlang.Node) error {
 		var err error
-- 
2.43.0


From 4dcbecd13716b2d8e79d7af88d06f443949d6517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 08/20] fix: load the configuration before cleaning the output
 directory

A run with a missing or malformed configuration still removed the output of
previous runs.
---
 cmd/rtcg-gen/main.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index 6ded82b..e2f8b64 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -74,11 +74,16 @@ func (a *genAction) run() error {
 		return fmt.Errorf("couldn't read state machine suite: %w", err)
 	}
 
+	cfg, err := config.Load(a.configFile)
+	if err != nil {
+		return fmt.Errorf("couldn't get config for generator: %w", err)
+	}
+
 	if err := a.maybeClean(); err != nil {
 		return err
 	}
 
-	return a.generate(stms)
+	return a.generate(cfg, stms)
 }
 
 func (a *genAction) maybeClean() error {
@@ -113,12 +118,7 @@ func (a *genAction) readSuite() (*stm.Suite, error) {
 	return suite, errors.Join(err, file.Close())
 }
 
-func (a *genAction) generate(suite *stm.Suite) error {
-	cfg, err := config.Load(a.configFile)
-	if err != nil {
-		return fmt.Errorf("couldn't get config for generator: %w", err)
-	}
-
+func (a *genAction) generate(cfg *config.Config, suite *stm.Suite) error {
 	g, err := gen.New(*cfg, a.outputDir) // for now
 	if err != nil {
 		return fmt.Errorf("couldn't create generator: %w", err)
-- 
2.43.0


From 9506e0e96c67fddbfb43c1dbbf3533cc78bc07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 09/20] fix: refuse to clean any directory containing the
 current one

Only the literal current directory was refused: its absolute path, or any
directory above it, were removed together with everything in them.
---
 cmd/rtcg-gen/main.go | 47 +++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 3 deletions(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index e2f8b64..f7b4345 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -91,7 +91,12 @@ func (a *genAction) maybeClean() error {
 		return nil
 	}
 
-	if a.outputDir == "." {
+	inside, err := isWorkingDirInside(a.outputDir)
+	if err != nil {
+		return fmt.Errorf("couldn't check %q before cleaning: %w", a.outputDir, err)
+	}
+
+	if inside {
 		return ErrCleanDot
 	}
 
@@ -102,10 +107,46 @@ func (a *genAction) maybeClean() error {
 	return nil
 }
 
-// ErrCleanDot occurs if we try to clean "." (current directory).
+// isWorkingDirInside checks whether dir is the current directory, or one of the directories containing it.
+func isWorkingDirInside(dir string) (bool, error) {
+	// Use Lstat because cleaning a symbolic link just removes the link.
+	dirInfo, err := os.Lstat(dir)
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+
+	if err != nil {
+		return false, fmt.Errorf("couldn't get information on directory: %w", err)
+	}
+
+	ancestor, err := os.Getwd()
+	if err != nil {
+		return false, fmt.Errorf("couldn't get current directory: %w", err)
+	}
+
+	for {
+		ancestorInfo, err := os.Stat(ancestor)
+		if err != nil {
+			return false, fmt.Errorf("couldn't get information on directory: %w", err)
+		}
+
+		if os.SameFile(dirInfo, ancestorInfo) {
+			return true, nil
+		}
+
+		parent := filepath.Dir(ancestor)
+		if parent == ancestor {
+			return false, nil
+		}
+
+		ancestor = parent
+	}
+}
+
+// ErrCleanDot occurs if we try to clean "." (current directory), or any directory containing it.
 //
 // We don't support this because it would then change or confuse the current working directory.
-var ErrCleanDot = errors.New("can't clean current directory")
+var ErrCleanDot = errors.New("can't clean current directory or a directory containing it")
 
 func (a *genAction) readSuite() (*stm.Suite, error) {
 	file, err := cli.OpenFileOrStdin(a.inputFile)
-- 
2.43.0


From 2eb6586e11445ef605d4f5e4327a33a105b8c0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:00 +0000
Subject: [PATCH 10/20] fix: reject test names that can't be directory names
 when generating

A test called, for example, '../../x' was generated outside the output
directory.
---
 internal/gen/gen.go | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/internal/gen/gen.go b/internal/gen/gen.go
index b6900ae..abbc99c 100644
--- a/internal/gen/gen.go
+++ b/internal/gen/gen.go
@@ -2,8 +2,10 @@
 package gen
 
 import (
+	"errors"
 	"fmt"
 	"os"
+	"path/filepath"
 
 	"github.com/UoY-RoboStar/rtcg/internal/gen/catkin"
 	"github.com/UoY-RoboStar/rtcg/internal/gen/config"
@@ -123,15 +125,20 @@ func (g *Generator) OnSuite(suite *stm.Suite) *OnSuite {
 		subgens[i] = subg.OnSuite(suite)
 	}
 
-	return &OnSuite{parent: g, subgens: subgens}
+	return &OnSuite{parent: g, suite: suite, subgens: subgens}
 }
 
 type OnSuite struct {
 	parent  *Generator
+	suite   *stm.Suite
 	subgens []subgen.OnSuite
 }
 
 func (o *OnSuite) Generate() error {
+	if err := o.checkNames(); err != nil {
+		return err
+	}
+
 	if err := o.mkdirs(); err != nil {
 		return err
 	}
@@ -143,6 +150,20 @@ func (o *OnSuite) Generate() error {
 	return nil
 }
 
+// checkNames checks that each test name can be the name of a directory.
+func (o *OnSuite) checkNames() error {
+	for name := range o.suite.Tests {
+		if name == "." || !filepath.IsLocal(name) || filepath.Base(name) != name {
+			return fmt.Errorf("%w: %q", ErrBadTestName, name)
+		}
+	}
+
+	return nil
+}
+
+// ErrBadTestName occurs if a test has a name that can't be the name of its directory.
+var ErrBadTestName = errors.New("test name can't be used as a directory name")
+
 // mkdirs makes the various directories used by the generator.
 func (o *OnSuite) mkdirs() error {
 	for _, subg := range o.subgens {
-- 
2.43.0


From 143f61c11fbfbc904e7ab0a12ad5088af64cdce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 11/20] fix: don't destroy the user's convert.cpp when
 generating in place

With the output directory equal to the input directory the source was
truncated before it was copied onto itself.
---
 internal/gen/cpp/copy.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/internal/gen/cpp/copy.go b/internal/gen/cpp/copy.go
index 7d4ae12..8a218c2 100644
--- a/internal/gen/cpp/copy.go
+++ b/internal/gen/cpp/copy.go
@@ -57,9 +57,33 @@ func copyLocalFile(dirs gencommon.DirSet, name string) error {
 		return fmt.Errorf("couldn't open file %q: %w", srcPath, err)
 	}
 
+	same, err := isSameFile(src, dstPath)
+	if err != nil || same {
+		return errors.Join(err, src.Close())
+	}
+
 	return writeFile(src, dstPath)
 }
 
+// isSameFile checks whether src is the file at path, in which case writing to path would destroy src.
+func isSameFile(src *os.File, path string) (bool, error) {
+	dstInfo, err := os.Stat(path)
+	if errors.Is(err, os.ErrNotExist) {
+		return false, nil
+	}
+
+	if err != nil {
+		return false, fmt.Errorf("couldn't check dest file: %w", err)
+	}
+
+	srcInfo, err := src.Stat()
+	if err != nil {
+		return false, fmt.Errorf("couldn't check file: %w", err)
+	}
+
+	return os.SameFile(srcInfo, dstInfo), nil
+}
+
 func writeFile(src io.ReadCloser, outFile string) error {
 	dst, err := os.Create(outFile)
 	if err != nil {
-- 
2.43.0


From 247fac0178f50e2efbb79041831e72b696acf212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:25 +0000
Subject: [PATCH 12/20] fix: give every state its own identifier even if the
 test has identifiers

An identifier given in a test could clash with a generated one or be given
twice, so that transitions led to the wrong state.
---
 internal/stm/builder.go | 44 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 4 deletions(-)

diff --git a/internal/stm/builder.go b/internal/stm/builder.go
index d458f34..ab735ea 100644
--- a/internal/stm/builder.go
+++ b/internal/stm/builder.go
@@ -14,6 +14,9 @@ type Builder struct {
 	nodeNum uint64                          // nodeNum is a monotonically increasing counter for naming unnamed nodes.
 	stack   structure.Stack[*testlang.Node] // stack is a stack used for in-order test traversal.
 	stm     Stm                             // stm is the state machine currently being built.
+
+	given map[testlang.NodeID]bool // given is the set of identifiers given in the test itself.
+	taken map[testlang.NodeID]bool // taken is the set of identifiers already assigned to a node.
 }
 
 // BuildSuite builds a test suite tests into a map of state machines.
@@ -76,6 +79,10 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	testRoot := test.Root()
 	testRoot.ID = "initial"
 
+	if err := b.initNodeIDs(testRoot); err != nil {
+		return b.stm, err
+	}
+
 	b.stack.Clear()
 	b.stack.Push(testRoot)
 
@@ -90,6 +97,23 @@ func (b *Builder) Build(test *validate.Test) (Stm, error) {
 	return b.stm, nil
 }
 
+// initNodeIDs records the identifiers already present in the test starting at testRoot.
+func (b *Builder) initNodeIDs(testRoot *testlang.Node) error {
+	b.given = map[testlang.NodeID]bool{}
+	b.taken = map[testlang.NodeID]bool{testRoot.ID: true}
+
+	err := testlang.Walk(testRoot, func(node *testlang.Node) error {
+		b.given[node.ID] = true
+
+		return nil
+	})
+	if err != nil {
+		return fmt.Errorf("couldn't get node identifiers: %w", err)
+	}
+
+	return nil
+}
+
 func (b *Builder) processNode(node *testlang.Node) error {
 	if node.Outcome == testlang.OutcomeFail {
 		// We don't emit failing states.
@@ -148,11 +172,23 @@ func (b *Builder) buildState(node *testlang.Node) *State {
 	return result
 }
 
+// ensureNodeID makes sure n has an identifier that no other node has.
 func (b *Builder) ensureNodeID(n *testlang.Node) {
-	if n.ID != "" {
-		return
+	if n.ID == "" || b.taken[n.ID] {
+		n.ID = b.freshNodeID()
 	}
 
-	n.ID = testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
-	b.nodeNum++
+	b.taken[n.ID] = true
+}
+
+// freshNodeID gets the next numbered identifier that doesn't clash with one in the test.
+func (b *Builder) freshNodeID() testlang.NodeID {
+	for {
+		nodeID := testlang.NodeID(fmt.Sprintf("step%d", b.nodeNum))
+		b.nodeNum++
+
+		if !b.given[nodeID] {
+			return nodeID
+		}
+	}
 }
-- 
2.43.0


From a11b7ee5e7245a3007da4ac4a275174c39e4e6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:13 +0000
Subject: [PATCH 13/20] fix: let convert.cpp include the generated convert.h

---
 .../gen/cpp/embed/templates/base/convert/convert_base.h.tmpl  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
index 5fd8563..961dcd7 100644
--- a/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
+++ b/internal/gen/cpp/embed/templates/base/convert/convert_base.h.tmpl
@@ -51,7 +51,7 @@ Base indent is set at 0.
 // Converting from channel message types to basic types
 {{- range $ch, $ty := .ChannelTypes }}
 
-{{ cppType .Base }} {{ cppConvertFrom $ch }}(const {{ cppChannelMsgType $ch }} msg)
+{{ if not .HasOverride }}inline {{ end }}{{ cppType .Base }} {{ cppConvertFrom $ch }}(const {{ cppChannelMsgType $ch }} msg)
 {{-   if .HasOverride -}}
 ; // User override supplied
 {{-   else }}
@@ -64,7 +64,7 @@ Base indent is set at 0.
 // Converting from basic types to channel value types
 {{- range $ch, $ty := .ChannelTypes }}
 
-{{ cppChannelValueType $ch }} {{ cppConvertTo $ch }}(const {{ cppType .Base }} value)
+{{ if not .HasOverride }}inline {{ end }}{{ cppChannelValueType $ch }} {{ cppConvertTo $ch }}(const {{ cppType .Base }} value)
 {{-   if .HasOverride -}}
 ; // User override supplied
 {{-   else }}
-- 
2.43.0


From a01e2498706faba5e3e0b07bc1857a0a34a4d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:36 +0000
Subject: [PATCH 14/20] fix: refuse state machines with transitions to missing
 states

---
 internal/stm/suite.go | 31 ++++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 8968ad6..8391823 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -6,6 +6,7 @@ import (
 	"io"
 
 	"github.com/UoY-RoboStar/rtcg/internal/serial"
+	"github.com/UoY-RoboStar/rtcg/internal/testlang"
 )
 
 // Suite is a test suite, in state machine format.
@@ -29,7 +30,7 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 	return &suite, nil
 }
 
-// checkComplete checks that s doesn't have any missing state machines or states.
+// checkComplete checks that s doesn't have any missing state machines or states, including those transitions lead to.
 func (s *Suite) checkComplete() error {
 	for name, test := range s.Tests {
 		if test == nil || len(test.States) == 0 {
@@ -41,6 +42,31 @@ func (s *Suite) checkComplete() error {
 				return fmt.Errorf("%s: %w", name, ErrNilState)
 			}
 		}
+
+		if err := test.checkTransitions(); err != nil {
+			return fmt.Errorf("%s: %w", name, err)
+		}
+	}
+
+	return nil
+}
+
+// checkTransitions checks that all transitions of s lead to states of s.
+func (s *Stm) checkTransitions() error {
+	ids := make(map[testlang.NodeID]struct{}, len(s.States))
+
+	for _, state := range s.States {
+		ids[state.ID] = struct{}{}
+	}
+
+	for _, state := range s.States {
+		for _, set := range state.TransitionSets {
+			for _, tr := range set.Transitions {
+				if _, ok := ids[tr.Next]; !ok {
+					return fmt.Errorf("%s: %w: %q", state.ID, ErrNoNextState, tr.Next)
+				}
+			}
+		}
 	}
 
 	return nil
@@ -52,6 +78,9 @@ var (
 
 	// ErrNilState occurs when a state of a state machine read as part of a suite is missing.
 	ErrNilState = errors.New("state should not be null")
+
+	// ErrNoNextState occurs when a transition of a state machine read as part of a suite leads to a missing state.
+	ErrNoNextState = errors.New("transition leads to a state that doesn't exist")
 )
 
 // Write pretty-prints a state machine suite, as JSON, into writer w.
-- 
2.43.0


From 23a65c283f49f186b5eaea5927fc0302c049c958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 15/20] fix: generate code for states that leave out their
 verdicts

The verdicts of a state may be left out of a state machine file, but generating
code for such a state failed with an error from the middle of a template.
---
 internal/stm/suite.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/internal/stm/suite.go b/internal/stm/suite.go
index 8391823..2684fc1 100644
--- a/internal/stm/suite.go
+++ b/internal/stm/suite.go
@@ -6,6 +6,7 @@ import (
 	"io"
 
 	"github.com/UoY-RoboStar/rtcg/internal/serial"
+	"github.com/UoY-RoboStar/rtcg/internal/stm/verdict"
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
 )
 
@@ -27,9 +28,22 @@ func ReadSuite(r io.Reader) (*Suite, error) {
 		return nil, fmt.Errorf("incomplete state machine suite: %w", err)
 	}
 
+	suite.fillVerdicts()
+
 	return &suite, nil
 }
 
+// fillVerdicts gives an empty verdict to each state of s that left its verdicts out.
+func (s *Suite) fillVerdicts() {
+	for _, test := range s.Tests {
+		for _, state := range test.States {
+			if state.Verdict == nil {
+				state.Verdict = &verdict.Verdict{}
+			}
+		}
+	}
+}
+
 // checkComplete checks that s doesn't have any missing state machines or states, including those transitions lead to.
 func (s *Suite) checkComplete() error {
 	for name, test := range s.Tests {
-- 
2.43.0


From b4e62116282064639d8b81ac5398c3b729a33d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:01 +0000
Subject: [PATCH 16/20] fix: reject traces with text that can't be represented
 as JSON or C++ strings

---
 internal/trace/read.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/trace/read.go b/internal/trace/read.go
index 4ddf464..e7ef1fb 100644
--- a/internal/trace/read.go
+++ b/internal/trace/read.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strings"
+	"unicode/utf8"
 
 	"github.com/UoY-RoboStar/rtcg/internal/testlang"
 )
@@ -58,6 +59,10 @@ func parseRow(row []string) (Forbidden, error) {
 	}
 
 	for cellIndex, cell := range row {
+		if !utf8.ValidString(cell) || strings.ContainsRune(cell, 0) {
+			return trace, fmt.Errorf("%w: %q", ErrBadText, cell)
+		}
+
 		if cellIndex == 0 {
 			cell = tryParseName(cell, &trace)
 		}
@@ -90,3 +95,6 @@ func selectEvent(index int, prefixLen int, trace *Forbidden) *testlang.Event {
 }
 
 var ErrNeedOneEvent = errors.New("each trace must have at least one event")
+
+// ErrBadText occurs when a trace contains text that later stages can't represent.
+var ErrBadText = errors.New("traces must be UTF-8 without null characters")
-- 
2.43.0


From 5b745ab1b44cebfd49f9cc818b4d9f0c06baf394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:28 +0000
Subject: [PATCH 17/20] fix: reject content after the end of a JSON file

---
 internal/serial/serial.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/serial/serial.go b/internal/serial/serial.go
index 2663015..b7076d6 100644
--- a/internal/serial/serial.go
+++ b/internal/serial/serial.go
@@ -3,6 +3,7 @@ package serial
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -15,9 +16,17 @@ func ReadJSON(reader io.Reader, dest any) error {
 		return fmt.Errorf("JSON read error: %w", err)
 	}
 
+	// The decoder stops after one value, but that should be all there is.
+	if _, err := j.Token(); !errors.Is(err, io.EOF) {
+		return fmt.Errorf("JSON read error: %w", errors.Join(ErrTrailing, err))
+	}
+
 	return nil
 }
 
+// ErrTrailing occurs when there is something after the end of a JSON representation.
+var ErrTrailing = errors.New("unexpected content after JSON value")
+
 // WriteJSON writes a JSON representation for value into writer.
 func WriteJSON(writer io.Writer, value any) error {
 	j := json.NewEncoder(writer)
-- 
2.43.0


From d2abfaf19113ec4bf3f960d860854d49588182d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 18/20] fix: reject content outside the root element of a
 configuration file

---
 internal/gen/config/config.go | 41 ++++++++++++++++++++++++++++++++++-
 1 file changed, 40 insertions(+), 1 deletion(-)

diff --git a/internal/gen/config/config.go b/internal/gen/config/config.go
index 299e482..52a080d 100644
--- a/internal/gen/config/config.go
+++ b/internal/gen/config/config.go
@@ -1,9 +1,11 @@
 package config
 
 import (
+	"bytes"
 	"encoding/xml"
 	"errors"
 	"fmt"
+	"io"
 	"os"
 	"path/filepath"
 
@@ -26,7 +28,7 @@ func Load(path string) (*Config, error) {
 		return nil, fmt.Errorf("couldn't open config file %q: %w", path, err)
 	}
 
-	if err := xml.NewDecoder(file).Decode(&config); err != nil {
+	if err := decode(file, &config); err != nil {
 		err = fmt.Errorf("couldn't decode config file %q: %w", path, err)
 
 		return nil, errors.Join(err, file.Close())
@@ -42,3 +44,40 @@ func Load(path string) (*Config, error) {
 
 	return &config, nil
 }
+
+// decode reads a generator config from reader into config.
+func decode(reader io.Reader, config *Config) error {
+	dec := xml.NewDecoder(reader)
+
+	for hasRoot := false; ; {
+		tok, err := dec.Token()
+		if errors.Is(err, io.EOF) && hasRoot {
+			return nil
+		}
+
+		if err != nil {
+			return err
+		}
+
+		switch tok := tok.(type) {
+		case xml.StartElement:
+			if hasRoot {
+				return ErrOutsideRoot
+			}
+
+			if err := dec.DecodeElement(config, &tok); err != nil {
+				return err
+			}
+
+			hasRoot = true
+		case xml.CharData:
+			// There might be a byte order mark at the beginning.
+			if len(bytes.Trim(tok, "\ufeff \t\r\n")) != 0 {
+				return ErrOutsideRoot
+			}
+		}
+	}
+}
+
+// ErrOutsideRoot occurs when there is something before or after the root element of a config.
+var ErrOutsideRoot = errors.New("unexpected content outside root element")
-- 
2.43.0


From ebacda24a183369bcc59b62c1071bc2ebf4a4d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:32 +0000
Subject: [PATCH 19/20] fix: let tests have names that are C++ keywords or
 methods of Verdict

---
 .../cpp/embed/templates/base/state_entry.cpp.tmpl  |  2 +-
 .../gen/cpp/embed/templates/base/verdict.cpp.tmpl  | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
index ea2056d..814f2c0 100644
--- a/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/state_entry.cpp.tmpl
@@ -8,7 +8,7 @@ Base indent is set at 2, as we are inside a top-level function.
   {{ template "log" "info" }}"Entered state {{ .ID }}."{{ template "end_log" }}
 
 {{- range $t, $o := .Verdict }}
-  verdict_.{{ $t }}({{ cppOutcomeEnum $o }});
+  verdict_.set_{{ $t }}({{ cppOutcomeEnum $o }});
 {{- end }}
 
 {{- /* Assuming that this is a valid state, ie at most one input, and no mix of inputs/outputs. */ -}}
diff --git a/internal/gen/cpp/embed/templates/base/verdict.cpp.tmpl b/internal/gen/cpp/embed/templates/base/verdict.cpp.tmpl
index 4f76a98..2c20485 100644
--- a/internal/gen/cpp/embed/templates/base/verdict.cpp.tmpl
+++ b/internal/gen/cpp/embed/templates/base/verdict.cpp.tmpl
@@ -9,11 +9,11 @@ class Verdict
 public:
   void dump(); // Outputs all test verdicts to log.
 {{- range . }}
-  void {{ . }}(rtcg::Outcome new_val); // Sets the outcome of {{ . }}.
+  void set_{{ . }}(rtcg::Outcome new_val); // Sets the outcome of {{ . }}.
 {{- end }}
 private:
 {{- range . }}
-  rtcg::Outcome {{ . }}_ = rtcg::Outcome::UNSET;
+  rtcg::Outcome outcome_{{ . }} = rtcg::Outcome::UNSET;
 {{- end }}
 };
 
@@ -22,19 +22,19 @@ void Verdict::dump()
 {{- block "verdict_dump" . }}
   {{ template "log" "info" }}"Final outcomes: "{{ template "end_log" }}
 {{-   range . }}
-  {{ template "log" "info" }}"  {{ . }} = " << {{ . }}_{{ template "end_log" }}
+  {{ template "log" "info" }}"  {{ . }} = " << outcome_{{ . }}{{ template "end_log" }}
 {{-   end }}
 {{- end }}
 }
 
 {{- range . }}
 
-void Verdict::{{ . }}(rtcg::Outcome new_val)
+void Verdict::set_{{ . }}(rtcg::Outcome new_val)
 {
-  if ({{ . }}_ == new_val)
+  if (outcome_{{ . }} == new_val)
     return;
 
-  {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << {{ . }}_ << "."{{ template "end_log" }}
-  {{ . }}_ = new_val;
+  {{ template "log" "info" }}"Test {{ . }} is now " << new_val << "; was " << outcome_{{ . }} << "."{{ template "end_log" }}
+  outcome_{{ . }} = new_val;
 }
 {{- end -}}
-- 
2.43.0


From 7ecaa1e256376d29acfb103b4cfebcd79538e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:01 +0000
Subject: [PATCH 20/20] fix: read a state machine file called ./-

Cleaning the path turned ./- into -, which means standard input.
---
 cmd/rtcg-gen/main.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/cmd/rtcg-gen/main.go b/cmd/rtcg-gen/main.go
index f7b4345..90a6815 100644
--- a/cmd/rtcg-gen/main.go
+++ b/cmd/rtcg-gen/main.go
@@ -67,7 +67,6 @@ type genAction struct {
 func (a *genAction) run() error {
 	a.outputDir = filepath.Clean(a.outputDir)
 	a.configFile = filepath.Clean(a.configFile)
-	a.inputFile = filepath.Clean(a.inputFile)
 
 	stms, err := a.readSuite()
 	if err != nil {
-- 
2.43.0

