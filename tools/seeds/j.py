SEEDS = {
 'c26-slash': dict(
  property='C26',
  needs='a value in a suite of state machines with an escape that Go does not have, such as a solidus or a pair of surrogates',
  breaks='the suite is refused',
  edits=[('internal/testlang/value/value.go', '''func (v *Value) UnmarshalText(text []byte) error {
	text = bytes.TrimSpace(text)
''', '''// UnmarshalJSON unmarshals a quoted value.
func (v *Value) UnmarshalJSON(text []byte) error {
	if bytes.Equal(text, []byte("null")) {
		return nil
	}

	str, err := strconv.Unquote(string(text))
	if err != nil {
		return fmt.Errorf("couldn't unquote value %s: %w", text, err)
	}

	return v.UnmarshalText([]byte(str))
}

func (v *Value) UnmarshalText(input []byte) error {
	text := bytes.TrimSpace(input)
'''), ('internal/testlang/value/value.go', '''	"reflect"
''', '''	"reflect"
	"strconv"
''')],
  demo='''
cat > "$d/gen.xml" <<'X'
<rtcg-gen><cpp variant="animate"/></rtcg-gen>
X
traces <<'T'
t: a.out.x/y
T
stms || fail stms
"$B/rtcg-gen" -output "$d/o1" "$d/gen.xml" "$d/stms.json" || fail "plain refused"
sed 's,x/y,x\\\\/y,' "$d/stms.json" > "$d/stms2.json"
grep -q 'x\\\\/y' "$d/stms2.json" || fail groundwork
"$B/rtcg-gen" -output "$d/o2" "$d/gen.xml" "$d/stms2.json" || fail refused
echo ok
'''),
 'c26-types-void': dict(
  property='C26',
  needs='a suite of state machines whose types are null or left out, while its machines have theirs',
  breaks='types are only taken to be none if they are given as an empty object',
  edits=[('internal/stm/suite.go', '''	return &suite, nil
}
''', '''	return suite.inferTypes()
}

// inferTypes makes up for missing types of s.
func (s *Suite) inferTypes() (*Suite, error) {
	var err error

	if s.Types == nil {
		s.Types, err = unifyTypes(s.Tests)
	}

	return s, err
}
''')],
  demo='''
traces <<'T'
t: a.in.1,b.in.2
T
stms || fail stms
echo '<rtcg-gen><cpp variant="ros"/></rtcg-gen>' > "$d/gen.xml"
for x in '{}' null; do
  python3 -c 'import json, sys; s = json.load(open(sys.argv[1])); s["types"] = json.loads(sys.argv[2]); json.dump(s, sys.stdout)' "$d/stms.json" "$x" > "$d/s2.json"
  rm -rf "$d/o"
  "$B/rtcg-gen" -output "$d/o" "$d/gen.xml" "$d/s2.json" || fail refused
  cksum < "$d/o/ros/src/convert/convert.h" >> "$d/sums"
done
[ "$(sort -u "$d/sums" | wc -l)" = 1 ] || fail "$(cat "$d/sums")"
echo ok
'''),
 'c26-catkin-comment': dict(
  property='C26',
  needs='a comment or an instruction before the package in a Catkin configuration',
  breaks='the package is not seen',
  edits=[('internal/gen/config/catkin/catkin.go', '''package catkin
''', '''package catkin

import (
	"encoding/xml"
	"fmt"
)
'''), ('internal/gen/config/catkin/catkin.go', '''	Package *Package `xml:"package,omitempty"` // Package contains package.xml overrides.
}
''', '''	Package *Package // Package contains package.xml overrides.
}

// UnmarshalXML unmarshals a Catkin configuration, which has at most one element.
func (c *Config) UnmarshalXML(dec *xml.Decoder, start xml.StartElement) error {
	tok, err := dec.Token()
	if _, isSpace := tok.(xml.CharData); isSpace {
		tok, err = dec.Token()
	}

	if err != nil {
		return fmt.Errorf("couldn't read Catkin configuration: %w", err)
	}

	switch tok := tok.(type) {
	case xml.EndElement:
		return nil
	case xml.StartElement:
		if tok.Name.Local == "package" {
			c.Package = new(Package)

			if err := dec.DecodeElement(c.Package, &tok); err != nil {
				return fmt.Errorf("couldn't read package: %w", err)
			}
		} else if err := dec.Skip(); err != nil {
			return fmt.Errorf("couldn't read Catkin configuration: %w", err)
		}
	}

	return dec.Skip()
}
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
cat > "$d/gen.xml" <<'X'
<rtcg-gen><cpp variant="ros"><catkin>
<!-- ours -->
<package><license>MIT</license></package></catkin></cpp></rtcg-gen>
X
"$B/rtcg-gen" -output "$d/o" "$d/gen.xml" "$d/stms.json" || fail refused
grep -rq '<license>MIT</license>' "$d/o" || fail "no licence"
echo ok
'''),
 'c26-attr-order': dict(
  property='C26',
  needs='a channel whose type is written before its name',
  breaks='name and type are mixed up',
  edits=[('internal/gen/config/cpp/cpp.go', '''	"github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
''', '''	"encoding/xml"
	"fmt"

	"github.com/UoY-RoboStar/rtcg/internal/gen/config/catkin"
'''), ('internal/gen/config/cpp/cpp.go', '''	Type string `xml:"type,attr"` // Type is the C++ value type of the channel.
}
''', '''	Type string `xml:"type,attr"` // Type is the C++ value type of the channel, if it is overridden.
}

// UnmarshalXML unmarshals a channel, which has nothing but two attributes.
func (c *Channel) UnmarshalXML(dec *xml.Decoder, start xml.StartElement) error {
	for i, dest := range []*string{&c.Name, &c.Type} {
		if i < len(start.Attr) {
			*dest = start.Attr[i].Value
		}
	}

	if err := dec.Skip(); err != nil {
		return fmt.Errorf("couldn't read channel: %w", err)
	}

	return nil
}
''')],
  demo='''
traces <<'T'
t: a.out.1
T
stms || fail stms
for a in 'name="a" type="float"' 'type="float" name="a"'; do
  echo "<rtcg-gen><cpp variant='animate'><channel $a/></cpp></rtcg-gen>" > "$d/gen.xml"
  rm -rf "$d/o"
  mkdir -p "$d/animate/src/convert"; echo '// mine' > "$d/animate/src/convert/convert.cpp"
  "$B/rtcg-gen" -output "$d/o" "$d/gen.xml" "$d/stms.json" || fail refused
  grep -rqw float "$d/o/animate/src" || fail "no float for $a"
done
echo ok
'''),
 'c26-maintainer': dict(
  property='C26',
  needs='the name of a maintainer with a comment or a CDATA section in it',
  breaks='only the part before that is read',
  edits=[('internal/gen/config/catkin/package.go', '''	Name  string `xml:",chardata"`  // Name is the name of the maintainer.
}
''', '''	Name  string `xml:",chardata"`  // Name is the name of the maintainer, which is all there is in the element.
}

// UnmarshalXML unmarshals a maintainer.
func (m *Maintainer) UnmarshalXML(dec *xml.Decoder, start xml.StartElement) error {
	for _, attr := range start.Attr {
		if attr.Name.Local == "email" {
			m.Email = attr.Value
		}
	}

	tok, err := dec.Token()
	if err != nil {
		return fmt.Errorf("couldn't read maintainer: %w", err)
	}

	if text, ok := tok.(xml.CharData); ok {
		m.Name = string(text)
	}

	if _, ok := tok.(xml.EndElement); ok {
		return nil
	}

	return dec.Skip()
}
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
cat > "$d/gen.xml" <<'X'
<rtcg-gen><cpp variant="ros"><catkin><package><maintainer email="a@b">Ada <![CDATA[Lovelace]]></maintainer></package></catkin></cpp></rtcg-gen>
X
"$B/rtcg-gen" -output "$d/o" "$d/gen.xml" "$d/stms.json" || fail refused
grep -rq '>Ada Lovelace</maintainer>' "$d/o" || fail "$(grep -r maintainer "$d/o")"
echo ok
'''),
 'c26-leading-space': dict(
  property='C26',
  needs='a suite after more than half a kilobyte of white space',
  breaks='it is taken for an empty input and refused',
  edits=[('internal/serial/serial.go', '''	j := json.NewDecoder(reader)
''', '''	// Tell inputs that are just blank from those that are broken.
	buf := bufio.NewReader(reader)
	if head, err := buf.Peek(blankSize); err == nil && len(bytes.TrimSpace(head)) == 0 {
		return fmt.Errorf("JSON read error: %w", io.ErrUnexpectedEOF)
	}

	j := json.NewDecoder(buf)
'''), ('internal/serial/serial.go', '''// ReadJSON reads''', '''// blankSize is how much of an input is looked at to see whether it is blank.
const blankSize = 512

// ReadJSON reads'''), ('internal/serial/serial.go', '''import (
''', '''import (
	"bufio"
	"bytes"
''')],
  demo='''
traces <<'T'
t: a.out.x
T
stms || fail stms
( printf '%600s' ''; cat "$d/tests.json" ) > "$d/t2.json"
"$B/rtcg-make-stms" "$d/t2.json" > "$d/stms.json" || fail refused
grep -q a.out "$d/stms.json" || fail empty
echo ok
'''),
}
