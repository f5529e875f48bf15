"""Planted changes of file generation (C14-C17)."""
SEEDS = {
 'c14-last-channel': dict(
  property='C14',
  needs='a suite with several channels of which only some have a configured type',
  breaks='whether the conversion source is copied depends on the channel looked at last, in random order',
  edits=[('internal/gen/config/cpp/context.go', '''		if ok {
			ctx.HasConversion = true
		}
''', '''		ctx.HasConversion = ok
''')],
  demo='''
printf 't: a.out.1, b.out.1, c.out.1, e.out.1, f.out.1\\n' > "$d/traces"
stms || fail rejected
mkdir -p "$d/in/animate/src/convert"; echo '// mine' > "$d/in/animate/src/convert/convert.cpp"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20; do
  rm -rf "$d/out"
  gen '<cpp variant="animate"><channel name="a" type="long"/></cpp>' || fail gen
  [ -f "$d/out/animate/src/convert/convert.cpp" ] || fail "no conversion"
done
echo ok
'''),
 'c14-unused-channel': dict(
  property='C14',
  needs='a configured channel that none of the tests uses',
  breaks='the conversion source is required although no configured channel needs it',
  edits=[('internal/gen/config/cpp/context.go', 'HasConversion: false,', 'HasConversion: len(c.Channels) != 0,')],
  demo='''
printf 't: a.out.1, b.out.1\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="animate"><channel name="z" type="long"/></cpp>' || fail gen
echo ok
'''),
 'c14-dots': dict(
  property='C14',
  needs='a test with a name that ends in an extension',
  breaks='the files of different tests are written to the same place',
  edits=[('internal/gen/cpp/cpp.go', '''	for name, test := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(name)
''', '''	for name, test := range o.suite.Tests {
		dirs := o.parent.srcDirSet.Subdir(strings.TrimSuffix(name, ".cpp"))
'''), ('internal/gen/cpp/cpp.go', '	dirSet := o.parent.srcDirSet.Subdir(name)\n', '	dirSet := o.parent.srcDirSet.Subdir(strings.TrimSuffix(name, ".cpp"))\n'),
   ('internal/gen/cpp/cpp.go', 'import (\n\t"fmt"\n', 'import (\n\t"fmt"\n\t"strings"\n')],
  demo='''
printf 'main.cpp: a.out.1\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="animate"></cpp>' || fail gen
[ -f "$d/out/animate/src/main.cpp/src/main.cpp" ] || fail "file missing"
echo ok
'''),
 'c15-truncate': dict(
  property='C15',
  needs='a file left by an earlier run that is longer than the new one',
  breaks='the end of the old file stays at the end of the new one',
  edits=[('internal/gen/templating/templating.go', 'file, err := os.Create(path)', 'file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o666)')],
  demo='''
printf 't: a.out.1, b.out.1, c.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="animate"><makefile/></cpp>' || fail gen
printf 't: a.out.1\\n' > "$d/traces"
stms && gen '<cpp variant="animate"><makefile/></cpp>' || fail gen
animbuild t || fail build
echo ok
'''),
 'c15-package': dict(
  property='C15',
  needs='a package manifest left by an earlier run, with a configuration that has changed since',
  breaks='the old manifest is kept',
  edits=[('internal/gen/catkin/catkin.go', '''	file, err := os.Create(filepath.Join(dir, "package.xml"))
''', '''	file, err := os.OpenFile(filepath.Join(dir, "package.xml"), os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0o666)
	if errors.Is(err, os.ErrExist) {
		return nil
	}

''')],
  demo='''
printf 't: a.out.x, b.out.x, c.out.x\\n' > "$d/traces"
stms && gen '<cpp variant="ros"><catkin><package><license>MIT</license></package></catkin></cpp>' || fail gen
gen '<cpp variant="ros"><catkin><package><license>GPL</license></package></catkin></cpp>' || fail gen
grep -q '>GPL<' "$d/out/ros/src/t/package.xml" || fail old
echo ok
'''),
 'c15-clean-hidden': dict(
  property='C15',
  needs='hidden files in the output directory when cleaning',
  breaks='they stay',
  edits=[('cmd/rtcg-gen/main.go', '''	if err := os.RemoveAll(a.outputDir); err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}
''', '''	entries, err := filepath.Glob(filepath.Join(a.outputDir, "[^.]*"))
	if err != nil {
		return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
	}

	for _, entry := range entries {
		if err := os.RemoveAll(entry); err != nil {
			return fmt.Errorf("couldn't clean %q: %w", a.outputDir, err)
		}
	}
''')],
  demo='''
printf 't: a.out.x, b.out.x, c.out.x\\n' > "$d/traces"
stms || fail stms
mkdir -p "$d/in" "$d/out"; touch "$d/out/.old"
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/in/cfg.xml"
(cd "$d/in" && "$B/rtcg-gen" -clean -output "$d/out" cfg.xml "$d/stms.json") || fail gen
[ -e "$d/out/.old" ] && fail "not clean"
echo ok
'''),
 'c16-nat': dict(
  property='C16',
  needs='conversion code by the user for a channel that carries natural numbers only',
  breaks='the functions called are for int instead of unsigned int, so that the project does not link',
  edits=[('internal/gen/cpp/func.go', '	case rsType.IsNat():\n		return "unsigned int"\n	case rsType.IsInt():\n', '	case rsType.IsNat(), rsType.IsInt():\n')],
  demo='''
printf 't: a.out.1, a.out.2\\n' > "$d/traces"
stms || fail rejected
mkdir -p "$d/in/animate/src/convert"
cat > "$d/in/animate/src/convert/convert.cpp" <<'X'
#include "convert.h"
unsigned int fromA(const long v) { return v; }
long toA(const unsigned int v) { return v; }
X
gen '<cpp variant="animate"><channel name="a" type="long"/></cpp>' || fail gen
animbuild t "$d/out/animate/src/convert/convert.cpp" || fail build
echo ok
'''),
 'c16-include-order': dict(
  property='C16',
  needs='a system include configured after another include that defines what it needs',
  breaks='includes are not in the configured order',
  edits=[('internal/gen/config/cpp/context.go', '''	overrides := c.ChannelMap()
''', '''	// System includes go first.
	sort.SliceStable(ctx.Includes, func(i, j int) bool {
		return ctx.Includes[i].IsSystem && !ctx.Includes[j].IsSystem
	})

	overrides := c.ChannelMap()
'''), ('internal/gen/config/cpp/context.go', 'import (\n', 'import (\n\t"sort"\n\n')],
  demo='''
printf 't: a.out.1, a.out.2\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="animate"><include src="first.h"/><include src="second.h" system="true"/></cpp>' || fail gen
mkdir "$d/inc"; echo '#define FIRST' > "$d/inc/first.h"
printf '#ifndef FIRST\\n#error order\\n#endif\\n' > "$d/inc/second.h"
export CPLUS_INCLUDE_PATH=$d/inc
animbuild t || fail build
echo ok
'''),
 'c16-makefile-deps': dict(
  property='C16',
  needs='two tests of which one has a name that needs the conversion code, with code of the user',
  breaks='the Makefile leaves out the conversion code when linking',
  edits=[('internal/gen/makefile/embed/templates/Makefile.tmpl', '{{ template "reg_inputs" $k }} {{- template "convert" $ -}}\n{{- end }}', '{{ template "reg_inputs" $k }} {{- if eq (len $.Tests) 1 }}{{ template "convert" $ }}{{ end -}}\n{{- end }}')],
  demo='''
printf 't: a.out.1, a.out.2\\nu: a.out.3\\n' > "$d/traces"
stms || fail rejected
mkdir -p "$d/in/animate/src/convert"
cat > "$d/in/animate/src/convert/convert.cpp" <<'X'
#include "convert.h"
unsigned int fromA(const long v) { return v; }
long toA(const unsigned int v) { return v; }
X
gen '<cpp variant="animate"><channel name="a" type="long"/><makefile/></cpp>' || fail gen
make -s -C "$d/out/animate" || fail build
echo ok
'''),
 'c17-shared': dict(
  property='C17',
  needs='a Catkin configuration and more than one test',
  breaks='the name of the first test is in the packages of all tests',
  edits=[('internal/gen/catkin/catkin.go', '''	pkg := *o.parent.config.Package
	pkg.Expand(name)
''', '''	base := o.parent.config.Package
	base.Expand(name)

	pkg := *base
''')],
  demo='''
printf 't: a.out.x, a.out.y\\nu: a.out.z\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="ros"><catkin/></cpp>' || fail gen
grep -q '<name>t</name>' "$d/out/ros/src/t/package.xml" && grep -q '<name>u</name>' "$d/out/ros/src/u/package.xml" || fail names
echo ok
'''),
 'c17-once': dict(
  property='C17',
  needs='a configured field with the placeholder in it more than once',
  breaks='only the first occurrence is replaced',
  edits=[('internal/gen/config/catkin/package.go', 'strings.ReplaceAll(template, "${NAME}", name)', 'strings.Replace(template, "${NAME}", name, 1)')],
  demo='''
printf 't: a.out.x, a.out.y\\nu: a.out.z\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="ros"><catkin><package><description>${NAME} or ${NAME}</description></package></catkin></cpp>' || fail gen
grep -q '>t or t<' "$d/out/ros/src/t/package.xml" || fail description
echo ok
'''),
 'c17-expand-env': dict(
  property='C17',
  needs='a configured field with a dollar sign that is not the placeholder',
  breaks='the field is changed',
  edits=[('internal/gen/config/catkin/package.go', 'strings.ReplaceAll(template, "${NAME}", name)', '''os.Expand(template, func(key string) string {
		if key == "NAME" {
			return name
		}

		return "${" + key + "}"
	})'''), ('internal/gen/config/catkin/package.go', '	"io"\n	"strings"\n', '	"io"\n	"os"\n')],
  demo='''
printf 't: a.out.x, a.out.y\\nu: a.out.z\\n' > "$d/traces"
stms || fail rejected
gen '<cpp variant="ros"><catkin><package><description>costs $5, ${NAME}</description></package></catkin></cpp>' || fail gen
grep -q '>costs $5, t<' "$d/out/ros/src/t/package.xml" || fail description
echo ok
'''),
}
