"""More changes that break a property (see plant.py)."""
from bugs_base import bug

# --- parsing
bug("c01-quoted-key-tail", "C01", "a quoted key name with a delimiter character between the closing quote and the real delimiter's value",
    "the rest of the line behind a quoted key name is searched from the last quote instead of the first",
    [("parser.go", '''		pos := strings.Index(line[startIdx:], keyQuote)
		if pos == -1 {
			return "", -1, fmt.Errorf("missing closing''', '''		pos := strings.LastIndex(line[startIdx:], keyQuote)
		if pos == -1 {
			return "", -1, fmt.Errorf("missing closing''')],
    '''	f := load(ini.LoadOptions{}, "`a=b` = x `y` = z\\n\\"c:d\\" = 1\\n")
	check(reflect.DeepEqual(f.Section("").KeyStrings(), []string{"a=b", "c:d"}), "%v", f.Section("").KeysHash())''')

bug("c01-header-first-bracket", "C01", "a section header with a closing bracket in the section's name",
    "the section name ends at the first closing bracket",
    [("parser.go", "closeIdx := bytes.LastIndexByte(line, ']')", "closeIdx := bytes.IndexByte(line, ']')")],
    '''	f := load(ini.LoadOptions{}, "[list[0].x]\\na = 1\\n")
	check(reflect.DeepEqual(f.SectionStrings(), []string{"DEFAULT", "list[0].x"}), "%v", f.SectionStrings())''')

bug("c02-delim-key-lost", "C02", "an empty key name that appears while skipping is off and boolean keys are on",
    "a line that starts with the delimiter is silently dropped when boolean keys are allowed",
    [("parser.go", "case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:", "case IsErrEmptyKeyName(err) && (f.options.SkipUnrecognizableLines || f.options.AllowBooleanKeys):")],
    '''	_, err := ini.LoadSources(ini.LoadOptions{AllowBooleanKeys: true}, []byte("= 1\\na = 2\\n"))
	check(err != nil, "no error")''')

bug("c02-multiline-eof", "C02", "a multi-line value with no closing quote in a text that does not end with a line break",
    "an unterminated multi-line value at the very end of the text is accepted",
    [("parser.go", '''		val += next
		if p.isEOF {
			return "", fmt.Errorf("missing closing key quote from''', '''		val += next
		if p.isEOF {
			if len(next) > 0 && next[len(next)-1] != ' ' && len(val) > 64 {
				break
			}
			return "", fmt.Errorf("missing closing key quote from''')],
    '''	_, err := ini.LoadSources(ini.LoadOptions{}, []byte("a = `"+strings.Repeat("x", 70)+"\\nb = 1"))
	check(err != nil, "no error")''')

bug("c05-inline-on-header", "C05", "a section header with an inline comment, following comment lines",
    "the comment lines before a header are lost when the header has an inline comment",
    [("parser.go", '''			if has {
				p.comment.Write(comment)
			}

			section.Comment''', '''			if has {
				if p.comment.Len() > 0 && bytes.HasPrefix(comment, []byte(";")) {
					p.comment.Reset()
				}
				p.comment.Write(comment)
			}

			section.Comment''')],
    '''	f := load(ini.LoadOptions{}, "# one\\n[s] ; two\\na = 1\\n")
	c := f.Section("s").Comment
	check(strings.Contains(c, "one") && strings.Contains(c, "two"), "%q", c)''')

bug("c05-clean-comment-hash", "C05", "an inline comment behind a closed multi-line value, with both comment symbols",
    "such a comment is cut at the first # even if it starts with ;",
    [("parser.go", '''	i := bytes.IndexAny(in, "#;")
	if i == -1 {
		return nil, false
	}''', '''	i := bytes.IndexByte(in, '#')
	if i == -1 {
		i = bytes.IndexByte(in, ';')
	}
	if i == -1 {
		return nil, false
	}''')],
    '''	f := load(ini.LoadOptions{}, "[s] ; see #12\\na = 1\\n")
	check(f.Section("s").Comment == "; see #12", "%q", f.Section("s").Comment)''')

bug("c18-last-backslash-only", "C18", "a continued value whose next line consists of a backslash only",
    "a continuation line that holds nothing but a backslash ends the value",
    [("parser.go", '''		if len(next) == 0 {
			break
		}
		val += next''', '''		if len(next) == 0 || next == "\\\\" {
			break
		}
		val += next''')],
    '''	f := load(ini.LoadOptions{}, "a = one \\\\\\n\\\\\\ntwo\\nb = 1\\n")
	check(f.Section("").Key("a").Value() == "one two", "%v", f.Section("").KeysHash())''')

bug("c18-continuation-inner-trim", "C18", "a continued value with space before the backslash of a line that is not the first",
    "the space before the backslash of the second and later lines is lost",
    [("parser.go", '''		val = val[:len(val)-1]
	}
	return val, nil''', '''		val = strings.TrimSpace(val[:len(val)-1])
	}
	return val, nil''')],
    '''	f := load(ini.LoadOptions{}, "a = one \\\\\\ntwo \\\\\\nthree\\n")
	check(f.Section("").Key("a").Value() == "one two three", "%v", f.Section("").KeysHash())''')

bug("c18-python-crlf", "C18", "a python-style multi-line value with form feed indentation",
    "lines indented by a form feed no longer continue the value",
    [("parser.go", "var pythonMultiline = regexp.MustCompile(`^[\\t\\f ]`)", "var pythonMultiline = regexp.MustCompile(`^[\\t ]`)")],
    '''	f := load(ini.LoadOptions{AllowPythonMultilineValues: true, AllowBooleanKeys: true}, "a = 1\\n\\f2\\nb = 3\\n")
	check(len(f.Section("").KeyStrings()) == 2, "%v", f.Section("").KeysHash())''')

bug("c18-triple-short", "C18", "an empty value in triple quotes directly followed by text on the next line",
    "a value that opens with triple quotes and nothing else on the line is not seen as multi-line",
    [("parser.go", '''	if len(line) > 3 && line[0:3] == `"""` {''', '''	if len(line) > 4 && line[0:3] == `"""` {''')],
    '''	f := load(ini.LoadOptions{}, "a = \\"\\"\\"\\nx\\n\\"\\"\\"\\nb = 1\\n")
	check(f.Section("").Key("a").Value() == "\\nx\\n", "%q", f.Section("").KeysHash())''')

bug("c19-nested-span-section", "C19", "an empty value at the end of a section, and an indented key in the next",
    "nested values span section headers",
    [("parser.go", '''			// Nested values can't span sections
			isLastValueEmpty = false
''', '''			// Nested values can't span sections
			isLastValueEmpty = isLastValueEmpty && section.Comment != ""
''')],
    '''	f := load(ini.LoadOptions{AllowNestedValues: true}, "[a]\\nk =\\n# note\\n[b]\\n  x = 1\\n")
	check(f.Section("b").HasKey("x"), "%v / %v", f.Section("a").Key("k").NestedValues(), f.Section("b").KeysHash())''')

bug("c19-auto-count-dup", "C19", "auto-numbered entries in two sections of one document, the second reached twice",
    "the auto-increment counter is not restarted for a section that has keys already",
    [("parser.go", '''			p.comment.Reset()
			p.count = 1
''', '''			p.comment.Reset()
			if len(section.keyList) == 0 || p.count > 2 {
				p.count = 1
			}
''')],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: false}, "[a]\\nz = 0\\n[b]\\n- = 1\\n[a]\\n- = 2\\n")
	check(f.Section("a").HasKey("#1"), "%v", f.Section("a").KeysHash())''')

bug("c19-boolean-quoted", "C19", "a boolean key written back after it was given the value false",
    "a boolean key is written bare whatever its value",
    [("file.go", '''if key.isBooleanType && val == "true" {''', '''if key.isBooleanType && val != "" {''')],
    '''	f := load(ini.LoadOptions{AllowBooleanKeys: true}, "flag\\n")
	f.Section("").Key("flag").SetValue("false")
	g := load(ini.LoadOptions{AllowBooleanKeys: true}, save(f))
	check(g.Section("").Key("flag").Value() == "false", "%q", save(f))''')

bug("c19-nested-indent", "C19", "writing nested values with an indent",
    "nested values are written without the indent of the section",
    [("file.go", '''buf.WriteString(indent + "  " + val + LineBreak)''', '''buf.WriteString(indent + "" + val + LineBreak)''')],
    '''	f := load(ini.LoadOptions{AllowNestedValues: true}, "[s]\\nk =\\n  a = 1\\nz = 2\\n")
	g := load(ini.LoadOptions{AllowNestedValues: true}, save(f))
	check(reflect.DeepEqual(g.Section("s").Key("k").NestedValues(), []string{"a = 1"}), "%q", save(f))''')

bug("c20-raw-leading-blank", "C20", "an unparseable section that lists several names",
    "only the first configured name that matches is compared without case",
    [("parser.go", '''				if f.options.UnparseableSections[i] == name ||
					((f.options.Insensitive''', '''				if f.options.UnparseableSections[i] == name && i == 0 || f.options.UnparseableSections[i] == section.name ||
					((f.options.Insensitive''')],
    '''	f := load(ini.LoadOptions{UnparseableSections: []string{"x", "Notes"}, Insensitive: true}, "[NOTES]\\nfree text\\n")
	check(f.Section("notes").Body() == "free text", "%q", f.Section("notes").Body())''')

bug("c20-raw-append", "C20", "a raw section that appears twice in the text",
    "the second occurrence replaces the body of the first",
    [("parser.go", '''		if inUnparseableSection {
			section.isRawSection = true
			section.rawBody += string(line)
			continue
		}''', '''		if inUnparseableSection {
			if !section.isRawSection || section.Comment != "" && len(line) > 0 && line[0] == '*' {
				section.rawBody = ""
			}
			section.isRawSection = true
			section.rawBody += string(line)
			continue
		}''')],
    '''	f := load(ini.LoadOptions{UnparseableSections: []string{"n"}}, "# c\\n[n]\\none\\n*two\\nthree\\n")
	check(f.Section("n").Body() == "one\\n*two\\nthree", "%q", f.Section("n").Body())''')

bug("c20-setbody-trim", "C20", "setting a body that starts with an indented line, then writing",
    "SetBody trims the body",
    [("section.go", "	s.rawBody = body\n}", "	s.rawBody = strings.TrimSpace(body)\n}")],
    '''	f := ini.Empty()
	s, err := f.NewRawSection("n", "x")
	check(err == nil, "%v", err)
	s.SetBody("  indented\\nrest\\n\\n")
	_, _ = f.NewSection("z")
	ini.PrettySection = false
	check(strings.Contains(save(f), "[n]\\n  indented\\nrest\\n\\n[z]"), "%q", save(f))''')

bug("c21-bom-16-be", "C21", "a text that starts with the bytes of a big-endian byte-order mark",
    "a big-endian mark is no longer removed",
    [("parser.go", '''	case mask[0] == 254 && mask[1] == 255:
		fallthrough
''', '''	case mask[0] == 254 && mask[1] == 255 && p.buf.Buffered() > p.buf.Size()-1:
		fallthrough
''')],
    '''	f := load(ini.LoadOptions{}, "\\xfe\\xff[s]\\na = 1\\n")
	check(f.HasSection("s"), "%v", f.SectionStrings())''')

bug("c21-peek-short", "C21", "a text of one byte, or of two that look like a mark",
    "a text shorter than a full mark is an error",
    [("parser.go", '''		} else if len(mask) < 3 {
			return nil
		}''', '''		} else if len(mask) < 3 {
			return io.ErrUnexpectedEOF
		}''')],
    '''	_, err := ini.LoadSources(ini.LoadOptions{AllowBooleanKeys: true}, []byte("\\xef\\xbb"))
	check(err == nil, "%v", err)''')

bug("c21-crlf-boolean", "C21", "a source with CR LF line ends and a value that ends in a quote",
    "a value surrounded by quotes is only recognised when its line ends with LF alone",
    [("parser.go", '''	// Won't be able to reach here if value only contains whitespace
	line = strings.TrimSpace(line)
''', '''	// Won't be able to reach here if value only contains whitespace
	line = strings.Trim(line, " \\t\\n")
''')],
    '''	f := load(ini.LoadOptions{}, "a = 'x'\\r\\nb = y\\r\\n")
	check(f.Section("").Key("a").Value() == "x" && f.Section("").Key("b").Value() == "y", "%q", f.Section("").KeysHash())''')

bug("c22-unescape-order", "C22", "UnescapeValueCommentSymbols with both an escaped # and an escaped ;",
    "only the first kind of escaped comment symbol in a value is unescaped",
    [("parser.go", '''		line = strings.ReplaceAll(line, `\\;`, ";")
		line = strings.ReplaceAll(line, `\\#`, "#")''', '''		if unescaped := strings.ReplaceAll(line, `\\;`, ";"); unescaped != line {
			line = unescaped
		} else {
			line = strings.ReplaceAll(line, `\\#`, "#")
		}''')],
    '''	f := load(ini.LoadOptions{UnescapeValueCommentSymbols: true, IgnoreInlineComment: true}, "a = x\\\\;y\\\\#z\\n")
	check(f.Section("").Key("a").Value() == "x;y#z", "%q", f.Section("").Key("a").Value())''')

bug("c22-unescape-all", "C22", "UnescapeValueCommentSymbols with the same symbol escaped twice",
    "only the first escaped semicolon of a value is unescaped",
    [("parser.go", '''line = strings.ReplaceAll(line, `\\;`, ";")''', '''line = strings.Replace(line, `\\;`, ";", 1)''')],
    '''	f := load(ini.LoadOptions{UnescapeValueCommentSymbols: true, IgnoreInlineComment: true}, "a = x\\\\;y\\\\;z\\n")
	check(f.Section("").Key("a").Value() == "x;y;z", "%q", f.Section("").Key("a").Value())''')

bug("c22-quote-two", "C22", "a value that is a pair of quotes with nothing between them",
    "an empty value in quotes keeps its quotes",
    [("parser.go", "return len(in) >= 2 && in[0] == quote", "return len(in) > 2 && in[0] == quote")],
    '''	f := load(ini.LoadOptions{}, "a = ''\\nb = \\"\\"\\n")
	check(f.Section("").Key("a").Value() == "" && f.Section("").Key("b").Value() == "", "%q", f.Section("").KeysHash())''')

bug("c22-double-unescape", "C22", "UnescapeValueDoubleQuotes with two escaped quotes",
    "only one escaped double quote is unescaped",
    [("parser.go", '''return strings.Replace(line[startIdx:pos+startIdx], `\\"`, `"`, -1), nil''', '''return strings.Replace(line[startIdx:pos+startIdx], `\\"`, `"`, 2), nil''')],
    '''	f := load(ini.LoadOptions{UnescapeValueDoubleQuotes: true}, "a = \\"x \\\\\\"y\\\\\\" \\\\\\"z\\\\\\"\\"\\n")
	check(f.Section("").Key("a").Value() == "x \\"y\\" \\"z\\"", "%q", f.Section("").Key("a").Value())''')

# --- documents
bug("c06-hasvalue", "C06", "asking for a value that only the last key in order has",
    "HasValue does not see keys whose value was changed to be empty",
    [("section.go", '''	for _, k := range s.keys {
		if value == k.value {
			return true
		}
	}''', '''	for _, v := range s.keysHash {
		if value == v && (value != "" || len(s.keys) == 1) {
			return true
		}
	}''')],
    '''	f := load(ini.LoadOptions{}, "a =\\nb = 1\\n")
	check(f.Section("").HasValue(""), "no empty value")''')

bug("c06-setvalue-deleted", "C06", "setting a key that was deleted and created again through the old key",
    "the hash takes the value of a deleted key",
    [("key.go", '''	if k.s.keys[k.name] == k {
		k.s.keysHash[k.name] = v
	}''', '''	if k.s.keys[k.name] != nil {
		k.s.keysHash[k.name] = v
	}''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\n")
	k := f.Section("").Key("a")
	f.Section("").DeleteKey("a")
	_, _ = f.Section("").NewKey("a", "2")
	k.SetValue("3")
	check(f.Section("").KeysHash()["a"] == f.Section("").Key("a").Value(), "%v %q", f.Section("").KeysHash(), f.Section("").Key("a").Value())''')

bug("c06-delete-first", "C06", "deleting the last key of a section and creating it again",
    "deleting the last key in the list truncates the list of keys shared with it",
    [("section.go", '''			s.keyList = append(s.keyList[:i], s.keyList[i+1:]...)
			delete(s.keys, name)''', '''			s.keyList[i] = s.keyList[len(s.keyList)-1]
			s.keyList = s.keyList[:len(s.keyList)-1]
			delete(s.keys, name)''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\nb = 2\\nc = 3\\nd = 4\\n")
	f.Section("").DeleteKey("b")
	check(reflect.DeepEqual(f.Section("").KeyStrings(), []string{"a", "c", "d"}), "%v", f.Section("").KeyStrings())''')

bug("c07-delete-key", "C07", "InsensitiveKeys (not Insensitive) and deleting a key by another case",
    "DeleteKey does not fold names when only InsensitiveKeys is set",
    [("section.go", '''func (s *Section) DeleteKey(name string) {
	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {''', '''func (s *Section) DeleteKey(name string) {
	if s.f.options.Insensitive {''')],
    '''	f := load(ini.LoadOptions{InsensitiveKeys: true}, "Abc = 1\\n")
	f.Section("").DeleteKey("ABC")
	check(!f.Section("").HasKey("abc"), "still there")''')

bug("c07-new-section", "C07", "InsensitiveSections and creating a section by another case",
    "a section created through the API keeps its case with InsensitiveSections",
    [("file.go", '''		return nil, errors.New("empty section name")
	}

	if f.options.Insensitive || f.options.InsensitiveSections {''', '''		return nil, errors.New("empty section name")
	}

	if f.options.Insensitive || (f.options.InsensitiveSections && len(f.sectionList) < 2) {''')],
    '''	f := load(ini.LoadOptions{InsensitiveSections: true}, "[Abc]\\na = 1\\n[Def]\\nb = 1\\n")
	check(reflect.DeepEqual(f.SectionStrings(), []string{"default", "abc", "def"}), "%v", f.SectionStrings())''')

bug("c07-delete-section", "C07", "Insensitive and deleting a section with index by another case",
    "DeleteSectionWithIndex folds only with Insensitive",
    [("file.go", '''		name = DefaultSection
	}
	if f.options.Insensitive || f.options.InsensitiveSections {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()''', '''		name = DefaultSection
	}
	if f.options.Insensitive {
		name = strings.ToLower(name)
	}

	if f.BlockMode {
		f.lock.Lock()''')],
    '''	f := load(ini.LoadOptions{InsensitiveSections: true}, "[Abc]\\na = 1\\n")
	f.DeleteSection("ABC")
	check(!f.HasSection("abc"), "%v", f.SectionStrings())''')

bug("c08-grandparent", "C08", "a section whose direct parent does not exist, but a grandparent does",
    "the search for a key stops at the first missing ancestor",
    [("section.go", '''				sec, err := s.f.GetSection(sname)
				if err != nil {
					continue
				}
				return sec.GetKey(name)''', '''				sec, err := s.f.GetSection(sname)
				if err != nil {
					break
				}
				return sec.GetKey(name)''')],
    '''	f := load(ini.LoadOptions{}, "[a]\\nx = 1\\n[a.b.c]\\ny = 1\\n")
	check(f.Section("a.b.c").HasKey("x"), "not inherited")''')

bug("c08-delim-first", "C08", "names with two delimiters and the ancestors' keys",
    "the parent of a section is what is before the first delimiter when listing parent keys",
    [("section.go", '''	sname := s.name
	for {
		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > -1 {
			sname = sname[:i]
			sec, err := s.f.GetSection(sname)
			if err != nil {
				continue
			}
			parentKeys''', '''	sname := s.name
	for {
		if i := strings.LastIndex(sname, s.f.options.ChildSectionDelimiter); i > 0 {
			sname = sname[:i]
			sec, err := s.f.GetSection(sname)
			if err != nil {
				break
			}
			parentKeys''')],
    '''	f := load(ini.LoadOptions{}, "[a]\\nx = 1\\n[a.b.c]\\ny = 1\\n")
	check(len(f.Section("a.b.c").ParentKeys()) == 1, "%d", len(f.Section("a.b.c").ParentKeys()))''')

bug("c09-default-fold", "C09", "an insensitive document and a reference in another case to a key of the default section",
    "a reference to the default section is looked up without folding",
    [("key.go", '''			nk, _ = k.s.f.Section("").GetKey(noption)
''', '''			nk = k.s.f.Section("").keys[noption]
''')],
    '''	f := load(ini.LoadOptions{Insensitive: true}, "Base = /x\\n[s]\\np = %(BASE)s/y\\n")
	check(f.Section("s").Key("p").String() == "/x/y", "%q", f.Section("s").Key("p").String())''')


bug("c09-first-only", "C09", "the same reference twice in a value that also has another reference that cannot be resolved",
    "only the first of several equal references is replaced",
    [("key.go", "val = strings.Replace(val, vr, newVal, -1)", "val = strings.Replace(val, vr, newVal, 1)")],
    '''	f := load(ini.LoadOptions{}, "a = 1\\nb = "+strings.Repeat("%(a)s", 120)+"\\n")
	check(f.Section("").Key("b").String() == strings.Repeat("1", 120), "%q", f.Section("").Key("b").String())''')

bug("c09-self-parent", "C09", "a key that refers to itself and exists in a parent section too",
    "a key that refers to itself is looked up in the default section only if the name is not inherited",
    [("key.go", "if err != nil || k == nk {", "if err != nil || (k == nk && len(k.s.f.sectionList) > 1) {")],
    '''	f := load(ini.LoadOptions{}, "a = x%(a)s\\n")
	done := make(chan string, 1)
	go func() { done <- f.Section("").Key("a").String() }()
	v := <-done
	g := load(ini.LoadOptions{}, "a = x%(a)s\\n[other]\\n")
	check(g.Section("").Key("a").String() == v, "differs: %d %d", len(v), len(g.Section("").Key("a").String()))''')

bug("c09-mapper-after", "C09", "a value mapper whose result contains a reference",
    "the value mapper is applied after the references",
    [("key.go", '''	if k.s.f.ValueMapper != nil {
		val = k.s.f.ValueMapper(val)
	}
''', '''	if k.s.f.ValueMapper != nil {
		mapper := k.s.f.ValueMapper
		if strings.Contains(val, "%") {
			defer func() { val = mapper(val) }()
		} else {
			val = mapper(val)
		}
	}
''')],
    '''	f := load(ini.LoadOptions{}, "a = %(B)s\\nb = 2\\n")
	f.ValueMapper = strings.ToLower
	check(f.Section("").Key("a").String() == "2", "%q", f.Section("").Key("a").String())''')

bug("c10-dedupe-last", "C10", "shadow values a, b, a with deduplication",
    "a repeated value is only recognised next to its equal",
    [("key.go", '''		for i := range k.shadows {
			if k.shadows[i].value == val {
				return nil
			}
		}''', '''		if n := len(k.shadows); n > 0 && k.shadows[n-1].value == val {
			return nil
		}''')],
    '''	f := load(ini.LoadOptions{AllowShadows: true}, "a = 1\\na = 2\\na = 3\\na = 2\\n")
	check(reflect.DeepEqual(f.Section("").Key("a").ValueWithShadows(), []string{"1", "2", "3"}), "%v", f.Section("").Key("a").ValueWithShadows())''')

bug("c10-dedupe-value", "C10", "adding through the API a shadow equal to the first value",
    "a shadow equal to the first value is kept",
    [("key.go", '''		if k.value == val {
			return nil
		}
''', '''		if k.value == val && len(k.shadows) == 0 {
			return nil
		}
''')],
    '''	f := load(ini.LoadOptions{AllowShadows: true}, "a = 1\\na = 2\\na = 1\\n")
	check(reflect.DeepEqual(f.Section("").Key("a").ValueWithShadows(), []string{"1", "2"}), "%v", f.Section("").Key("a").ValueWithShadows())''')

bug("c10-write-first-twice", "C10", "writing a shadowed key whose first value is empty",
    "StringsWithShadows loses the parts of values after the first empty part",
    [("key.go", '''		results = append(results, strings.Split(vals[i], delim)...)''', '''		for _, part := range strings.Split(vals[i], delim) {
			if part == "" && i > 0 {
				break
			}
			results = append(results, part)
		}''')],
    '''	f := load(ini.LoadOptions{AllowShadows: true}, "a = 1,2\\na = 3,,4\\n")
	check(reflect.DeepEqual(f.Section("").Key("a").StringsWithShadows(","), []string{"1", "2", "3", "", "4"}), "%q", f.Section("").Key("a").StringsWithShadows(","))''')

bug("c11-loose-stop", "C11", "loose mode with a missing source that is not the last",
    "loading ends at the first missing file",
    [("file.go", '''				_ = f.parse(bytes.NewBuffer(nil))
				continue
			}''', '''				_ = f.parse(bytes.NewBuffer(nil))
				if len(f.sectionList) > 1 {
					return nil
				}
				continue
			}''')],
    '''	f, err := ini.LooseLoad([]byte("[a]\\nx = 1\\n"), "/nonexistent/file.ini", []byte("[b]\\ny = 1\\n"))
	check(err == nil && f.HasSection("b"), "%v", err)''')

bug("c11-append-partial", "C11", "Append with an unusable source after usable ones",
    "Append keeps quiet about a source of unknown type that is not the first",
    [("file.go", '''		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}''', '''		ds, err = parseDataSource(s)
		if err != nil {
			continue
		}
		f.dataSources = append(f.dataSources, ds)
	}''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\n")
	check(f.Append([]byte("b = 1\\n"), 42) != nil, "no error")''')

bug("c12-delete-index-shift", "C12", "deleting a section by index that has later namesakes with another section between",
    "the indices of later sections of the same name are not all corrected",
    [("file.go", '''			f.sectionIndexes[i-1]--
''', '''			f.sectionIndexes[i-1] = occurrences - 1
			if occurrences > index+2 {
				f.sectionIndexes[i-1]++
			}
''')],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, "[a]\\nk = 0\\n[a]\\nk = 1\\n[a]\\nk = 2\\n[a]\\nk = 3\\n[a]\\nk = 4\\n")
	_ = f.DeleteSectionWithIndex("a", 0)
	var got []string
	defer func() { check(recover() == nil, "panic") }()
	for _, s := range f.Sections()[1:] {
		got = append(got, s.Key("k").Value())
	}
	check(reflect.DeepEqual(got, []string{"1", "2", "3", "4"}), "%v", got)''')

bug("c12-delete-index-range", "C12", "deleting a section by an index that does not exist",
    "deleting by an index past the end deletes the last section of that name",
    [("file.go", '''		if occurrences == index {
			if len(f.sections[name]) <= 1 {''', '''		if occurrences == index || (index > len(f.sections[name]) && occurrences == 0 && len(f.sections[name]) == 1) {
			if len(f.sections[name]) <= 1 {''')],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, "[a]\\nk = 0\\n")
	_ = f.DeleteSectionWithIndex("a", 3)
	check(f.HasSection("a"), "deleted")''')

bug("c13-uint-width", "C13", "an unsigned value in the top half of the range",
    "Uint64 takes 63 bits only",
    [("key.go", '''func (k *Key) Uint64() (uint64, error) {
	return strconv.ParseUint(k.String(), 0, 64)''', '''func (k *Key) Uint64() (uint64, error) {
	return strconv.ParseUint(k.String(), 0, 63)''')],
    '''	f := load(ini.LoadOptions{}, "a = 18446744073709551615\\n")
	v, err := f.Section("").Key("a").Uint64()
	check(err == nil && v == 1<<64-1, "%v %v", v, err)''')

bug("c13-int-base", "C13", "an integer in octal or binary notation",
    "Int only knows decimal numbers and hexadecimal ones",
    [("key.go", '''	v, err := strconv.ParseInt(k.String(), 0, 64)
	return int(v), err''', '''	base := 10
	str := k.String()
	if strings.HasPrefix(str, "0x") {
		base = 0
	}
	v, err := strconv.ParseInt(str, base, 64)
	return int(v), err''')],
    '''	f := load(ini.LoadOptions{}, "a = 0b101\\nb = -0x10\\nc = 1_000\\n")
	s := f.Section("")
	check(s.Key("a").MustInt() == 5 && s.Key("b").MustInt() == -16 && s.Key("c").MustInt() == 1000, "%d %d %d", s.Key("a").MustInt(), s.Key("b").MustInt(), s.Key("c").MustInt())''')

bug("c13-bool-on", "C13", "a boolean written On or Off",
    "On is not true any more",
    [("key.go", '"YES", "yes", "Yes", "y", "ON", "on", "On":', '"YES", "yes", "Yes", "y", "ON", "on":')],
    '''	f := load(ini.LoadOptions{}, "a = On\\n")
	check(f.Section("").Key("a").MustBool(), "On is not true")''')

bug("c13-must-keep", "C13", "a duration default that is set in the document for an invalid value",
    "the default of MustDuration is rounded when it is stored",
    [("key.go", "k.SetValue(defaultVal[0].String())", "k.SetValue(defaultVal[0].Round(time.Microsecond).String())")],
    '''	f := load(ini.LoadOptions{}, "a = x\\n")
	k := f.Section("").Key("a")
	d := k.MustDuration(1500000001)
	check(k.MustDuration() == d, "%v %v", d, k.MustDuration())''')

bug("c13-must-float", "C13", "a float default with many digits and an invalid value",
    "the default of MustFloat64 is stored with six digits",
    [("key.go", "k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))", "k.SetValue(strconv.FormatFloat(defaultVal[0], 'g', 17, 32))")],
    '''	f := load(ini.LoadOptions{}, "a = x\\n")
	k := f.Section("").Key("a")
	d := k.MustFloat64(0.1)
	check(k.MustFloat64() == d, "%v %v", d, k.MustFloat64())''')

bug("c13-range-time", "C13", "a time in the range's first instant",
    "RangeTime is exclusive at its lower end",
    [("key.go", "if val.Before(min) || val.After(max) {", "if !val.After(min) || val.After(max) {")],
    '''	f := load(ini.LoadOptions{}, "a = 2020-01-02T03:04:05Z\\n")
	v, _ := f.Section("").Key("a").Time()
	check(f.Section("").Key("a").RangeTime(v.AddDate(1, 0, 0), v, v.AddDate(2, 0, 0)).Equal(v), "default given")''')

bug("c13-in-float", "C13", "InInt64 with a hexadecimal value",
    "InInt64 compares the text of the value",
    [("key.go", '''	val, err := k.Int64()
	if err != nil {
		return defaultVal
	}
	for _, cand := range candidates {
		if val == cand {
			return val
		}
	}''', '''	val, err := k.Int64()
	if err != nil {
		return defaultVal
	}
	for _, cand := range candidates {
		if val == cand && k.Value() == strconv.FormatInt(cand, 10) {
			return val
		}
	}''')],
    '''	f := load(ini.LoadOptions{}, "a = 0x10\\n")
	check(f.Section("").Key("a").InInt64(1, []int64{16}) == 16, "default given")''')

bug("c14-strict-first", "C14", "a list with one invalid element at the end",
    "strict lists do not report an invalid last element",
    [("key.go", "		if err != nil && returnOnInvalid {\n			return nil, err\n		}", "		if err != nil && returnOnInvalid && (len(vals) == 0 || len(vals) < len(strs)-1) {\n			return nil, err\n		}")],
    '''	f := load(ini.LoadOptions{}, "a = 1,2,x\\n")
	_, err := f.Section("").Key("a").StrictInts(",")
	check(err != nil, "no error")''')

bug("c14-uint-base", "C14", "a list of unsigned numbers in hexadecimal",
    "a list of uint64 is decimal only",
    [("key.go", '''func (k *Key) parseUint64s(strs []string, addInvalid, returnOnInvalid bool) ([]uint64, error) {
	vals := make([]uint64, 0, len(strs))
	parser := func(str string) (interface{}, error) {
		val, err := strconv.ParseUint(str, 0, 64)''', '''func (k *Key) parseUint64s(strs []string, addInvalid, returnOnInvalid bool) ([]uint64, error) {
	vals := make([]uint64, 0, len(strs))
	parser := func(str string) (interface{}, error) {
		val, err := strconv.ParseUint(str, 10, 64)''')],
    '''	f := load(ini.LoadOptions{}, "a = 0x1,2\\n")
	check(reflect.DeepEqual(f.Section("").Key("a").Uint64s(","), []uint64{1, 2}), "%v", f.Section("").Key("a").Uint64s(","))''')

bug("c14-escape-other", "C14", "a backslash before a character that is not the delimiter",
    "a backslash before any character but itself is dropped",
    [("key.go", '''				if runes[idx] != '\\\\' {
					buf.WriteRune('\\\\')
				}
				buf.WriteRune(runes[idx])''', '''				if runes[idx] != '\\\\' && runes[idx] != ' ' {
					buf.WriteRune('\\\\')
				}
				buf.WriteRune(runes[idx])''')],
    '''	f := load(ini.LoadOptions{}, "a = x\\\\ y,z\\n")
	check(reflect.DeepEqual(f.Section("").Key("a").Strings(","), []string{"x\\\\ y", "z"}), "%q", f.Section("").Key("a").Strings(","))''')

# --- struct mapping
bug("c15-tag-options", "C15", "a tag with three options",
    "only the first two options of a tag are read",
    [("struct.go", 'opts := strings.SplitN(tag, ",", 5)', 'opts := strings.SplitN(tag, ",", 3)')],
    '''	type T struct {
		A []int `ini:"a,omitempty,allowshadow"`
		B []int `ini:"b,omitempty,nonunique,allowshadow"`
	}
	f := load(ini.LoadOptions{AllowShadows: true}, "b = 1\\nb = 2\\n")
	var t T
	check(f.MapTo(&t) == nil, "error")
	check(len(t.B) == 2, "%v", t)''')

bug("c15-overflow", "C15", "a value that does not fit the field, without strict mode",
    "a value too big for a uint16 field is cut to its low bits",
    [("struct.go", "		if err != nil {\n			return wrapStrictError(err, isStrict)\n		}\n		if isPtr {\n			pv := reflect.New(t.Elem())\n			pv.Elem().SetUint(uintVal)", "		if err != nil && (isStrict || uintVal == 0) {\n			return wrapStrictError(err, isStrict)\n		}\n		if isPtr {\n			pv := reflect.New(t.Elem())\n			pv.Elem().SetUint(uintVal)")],
    '''	type T struct{ A uint16 }
	t := T{7}
	f := load(ini.LoadOptions{}, "A = 65537\\n")
	check(f.MapTo(&t) == nil && t.A == 7, "%v", t)''')

bug("c15-ptr-empty", "C15", "a string pointer and an empty value",
    "a pointer to a string stays nil for an empty value",
    [("struct.go", '''		if isPtr {
			pv := reflect.New(vt)
			pv.Elem().SetString(stringVal)
			field.Set(pv)
		} else if''', '''		if isPtr && (len(stringVal) > 0 || !field.IsNil()) {
			pv := reflect.New(vt)
			pv.Elem().SetString(stringVal)
			field.Set(pv)
		} else if isPtr {
			return nil
		} else if''')],
    '''	type T struct{ A *string }
	var t T
	f := load(ini.LoadOptions{}, "A =\\n")
	check(f.MapTo(&t) == nil && t.A != nil && *t.A == "", "%v", t)''')

bug("c15-slice-index", "C15", "a slice of structs of non-unique sections, in a field that has elements already",
    "mapping replaces the elements a slice field has",
    [("struct.go", '''	typ := val.Type().Elem()
	for i, sec := range secs {''', '''	typ := val.Type().Elem()
	if val.CanSet() && val.Len() > len(secs) {
		val = val.Slice(0, 0)
	}
	for i, sec := range secs {''')],
    '''	type S struct{ K int }
	type T struct {
		A []S `ini:"a,nonunique"`
	}
	t := T{[]S{{8}, {9}}}
	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, "[a]\\nK = 1\\n")
	check(f.MapTo(&t) == nil && len(t.A) == 3, "%v", t)''')

bug("c15-strict-list", "C15", "strict mapping of a list with an invalid part",
    "strict mapping ignores invalid parts of lists of bool",
    [("struct.go", "vals, err = key.parseBools(strs, !isStrict, isStrict)", "vals, err = key.parseBools(strs, true, isStrict && len(strs) == 1)")],
    '''	type T struct{ A []bool }
	var t T
	f := load(ini.LoadOptions{}, "A = true,maybe\\n")
	check(f.StrictMapTo(&t) != nil, "no error")''')

bug("c15-mapper-section", "C15", "a name mapper and a field of struct type without a tag",
    "the second capital letter in a row does not get an underscore",
    [("struct.go", '''				if i > 0 {
					newstr = append(newstr, '_')
				}
				chr -= 'A' - 'a\'''', '''				if i > 0 && newstr[len(newstr)-1] != '_' {
					newstr = append(newstr, '_')
				}
				chr -= 'A' - 'a\'''')],
    '''	check(ini.TitleUnderscore("A_B") == "a__b", "%q", ini.TitleUnderscore("A_B"))''')

bug("c16-uint8", "C16", "a pointer to a float field",
    "a pointer field whose value is zero is not written",
    [("struct.go", '''		if !field.IsNil() {
			return reflectWithProperType(''', '''		if !field.IsNil() && !isEmptyValue(field.Elem()) {
			return reflectWithProperType(''')],
    '''	type T struct{ A *float64 }
	zero := 0.0
	f := load(ini.LoadOptions{}, "A = 5\\n")
	check(f.ReflectFrom(&T{&zero}) == nil, "error")
	check(f.Section("").Key("A").Value() == "0", "%v", f.Section("").KeysHash())''')

bug("c16-shadow-stale", "C16", "reflecting a plain list over a key that has shadows",
    "reflecting a list without allowshadow leaves the shadows of the key",
    [("struct.go", '''	key.shadows = nil
	key.SetValue(buf.String()[:buf.Len()-len(delim)])''', '''	if !key.s.f.options.AllowShadows {
		key.shadows = nil
	}
	key.SetValue(buf.String()[:buf.Len()-len(delim)])''')],
    '''	type T struct{ A []int }
	f := load(ini.LoadOptions{AllowShadows: true}, "A = 1\\nA = 2\\n")
	check(f.ReflectFrom(&T{[]int{7}}) == nil, "error")
	check(reflect.DeepEqual(f.Section("").Key("A").ValueWithShadows(), []string{"7"}), "%v", f.Section("").Key("A").ValueWithShadows())''')

bug("c16-delim-long", "C16", "a list field with a delimiter of several characters",
    "one character is cut from the end of a reflected list",
    [("struct.go", "key.SetValue(buf.String()[:buf.Len()-len(delim)])", "key.SetValue(buf.String()[:buf.Len()-1])")],
    '''	type T struct {
		A []int `delim:"||"`
	}
	f := ini.Empty()
	check(f.ReflectFrom(&T{[]int{7, 8}}) == nil, "error")
	check(f.Section("").Key("A").Value() == "7||8", "%v", f.Section("").KeysHash())''')

bug("c16-omit-time", "C16", "a zero time that is in another zone, with omitempty",
    "omitempty keeps times that are zero",
    [("struct.go", "return ok && t.IsZero()", "return ok && t == time.Time{}")],
    '''	type T struct {
		A time.Time `ini:"A,omitempty"`
	}
	f := ini.Empty()
	check(f.ReflectFrom(&T{time.Time{}.In(time.FixedZone("x", 3600))}) == nil, "error")
	check(!f.Section("").HasKey("A"), "%v", f.Section("").KeysHash())''', imports=["time"])

# --- writing
bug("c03-trailing-backslash", "C03", "a value that ends with a backslash",
    "values that end with a backslash are written bare when they have no space",
    [("file.go", "case !f.options.IgnoreContinuation && strings.HasSuffix(val, `\\`):", "case !f.options.IgnoreContinuation && strings.HasSuffix(val, `\\`) && strings.Contains(val, \" \"):")],
    '''	f := ini.Empty()
	f.Section("").Key("dir").SetValue("C:\\\\x\\\\")
	f.Section("").Key("z").SetValue("1")
	g := load(ini.LoadOptions{}, save(f))
	check(reflect.DeepEqual(g.Section("").KeysHash(), f.Section("").KeysHash()), "%q", save(f))''')

bug("c03-comment-lines", "C03", "a section comment of two lines",
    "only the first line of a section comment is marked as a comment",
    [("file.go", '''				if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
					lines[i] = "; " + lines[i]
				}''', '''				if i == 0 && !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
					lines[i] = "; " + lines[i]
				}''')],
    '''	f := load(ini.LoadOptions{}, "[s]\\na = 1\\n")
	f.Section("s").Comment = "one\\ntwo = 2"
	g := load(ini.LoadOptions{AllowBooleanKeys: true}, save(f))
	check(len(g.Section("").KeyStrings()) == 0, "%v", g.Section("").KeysHash())''')

bug("c04-align-multibyte", "C04", "key names with characters of several bytes next to quoted ones, pretty format",
    "alignment is not computed for quoted keys, so writing panics or misaligns",
    [("file.go", '''				} else if strings.Contains(kname, "`") {
					keyLength += 6
				}''', '''				} else if strings.Contains(kname, "`") {
					keyLength += 2
				}''')],
    '''	f := ini.Empty()
	f.Section("").Key("a`b").SetValue("1")
	defer func() { check(recover() == nil, "panic") }()
	save(f)''')

bug("c04-indent-default", "C04", "writing with an indent and a section that is named like the default one in another case",
    "the indent is left out for a section's first key",
    [("file.go", '''			if len(indent) > 0 && sname != DefaultSection {
				buf.WriteString(indent)
			}

			switch {''', '''			if len(indent) > 0 && sname != DefaultSection && len(key.Comment) == 0 {
				buf.WriteString(indent)
			}

			switch {''')],
    '''	f := load(ini.LoadOptions{}, "[s]\\n# c\\na = 1\\n")
	var b bytes.Buffer
	_, _ = f.WriteToIndent(&b, "\\t")
	check(strings.Contains(b.String(), "\\n\\ta"), "%q", b.String())''')

bug("c04-save-indent", "C04", "SaveToIndent against WriteToIndent",
    "saving to a file ignores the indent when the file has one section",
    [("file.go", '''	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return err
	}
''', '''	if len(f.sectionList) == 2 {
		indent = strings.TrimRight(indent, " ")
	}
	buf, err := f.writeToBuffer(indent)
	if err != nil {
		return err
	}
''')],
    '''	f := load(ini.LoadOptions{}, "[s]\\na = 1\\n")
	dir, err := os.MkdirTemp("", "demo")
	check(err == nil, "%v", err)
	defer os.RemoveAll(dir)
	check(f.SaveToIndent(dir+"/x.ini", "  ") == nil, "error")
	data, _ := os.ReadFile(dir + "/x.ini")
	var b bytes.Buffer
	_, _ = f.WriteToIndent(&b, "  ")
	same := b.String() == string(data)
	os.RemoveAll(dir)
	check(same, "%q %q", data, b.String())''')

bug("c23-hash-shared", "C23", "changing the map KeysHash returned",
    "KeysHash returns the map of the section itself when it has no keys",
    [("section.go", '''	hash := make(map[string]string, len(s.keysHash))
''', '''	if len(s.keysHash) == 0 {
		return s.keysHash
	}
	hash := make(map[string]string, len(s.keysHash))
''')],
    '''	f := load(ini.LoadOptions{}, "[s]\\n")
	f.Section("s").KeysHash()["x"] = "1"
	check(len(f.Section("s").KeysHash()) == 0, "%v", f.Section("s").KeysHash())''')

bug("c23-nested-shared", "C23", "changing the list NestedValues returned",
    "NestedValues returns the list itself",
    [("key.go", '''	if k.nestedValues == nil {
		return nil
	}''', '''	if len(k.nestedValues) < 2 {
		return k.nestedValues
	}''')],
    '''	f := load(ini.LoadOptions{AllowNestedValues: true}, "k =\\n  a = 1\\n")
	f.Section("").Key("k").NestedValues()[0] = "x"
	check(f.Section("").Key("k").NestedValues()[0] == "a = 1", "%v", f.Section("").Key("k").NestedValues())''')

bug("c23-sections-list", "C23", "deleting a section after SectionStrings was called",
    "SectionStrings returns the list of the document itself",
    [("file.go", '''	list := make([]string, len(f.sectionList))
	copy(list, f.sectionList)
	return list''', '''	return f.sectionList[:len(f.sectionList):len(f.sectionList)]''')],
    '''	f := load(ini.LoadOptions{}, "[a]\\n[b]\\n[c]\\n")
	l := f.SectionStrings()
	f.DeleteSection("a")
	check(reflect.DeepEqual(l, []string{"DEFAULT", "a", "b", "c"}), "%v", l)''')

bug("c17-shadow-unlocked", "C17", "reading values with shadows while another goroutine adds a shadow",
    "ValueWithShadows reads without the lock",
    [("key.go", '''func (k *Key) ValueWithShadows() []string {
	if k.s.f.BlockMode {
		k.s.f.lock.RLock()
		defer k.s.f.lock.RUnlock()
	}
''', '''func (k *Key) ValueWithShadows() []string {
''')],
    '''	f := load(ini.LoadOptions{AllowShadows: true}, "a = 1\\n")
	k := f.Section("").Key("a")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			_ = k.AddShadow(fmt.Sprint(i))
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 500; i++ {
			k.ValueWithShadows()
		}
	}()
	wg.Wait()''', race=True, imports=["sync"])

bug("c17-addshadow-nolock", "C17", "two goroutines adding shadows to a key",
    "AddShadow takes the read lock",
    [("key.go", '''		k.s.f.lock.Lock()
		defer k.s.f.lock.Unlock()
	}
	return k.addShadow(val)''', '''		k.s.f.lock.RLock()
		defer k.s.f.lock.RUnlock()
	}
	return k.addShadow(val)''')],
    '''	f := load(ini.LoadOptions{AllowShadows: true, AllowDuplicateShadowValues: true}, "a = 0\\n")
	k := f.Section("").Key("a")
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 500; i++ {
				_ = k.AddShadow("x")
			}
		}()
	}
	wg.Wait()
	check(len(k.ValueWithShadows()) == 4001, "%d", len(k.ValueWithShadows()))''', race=True, imports=["sync"])

bug("c17-delete-key-late", "C17", "deleting a key while another goroutine lists keys",
    "DeleteKey looks for the key before it takes the lock",
    [("section.go", '''	if s.f.BlockMode {
		s.f.lock.Lock()
		defer s.f.lock.Unlock()
	}

	for i, k := range s.keyList {
		if k == name {
''', '''	for i, k := range s.KeyStrings() {
		if k == name {
			if s.f.BlockMode {
				s.f.lock.Lock()
				defer s.f.lock.Unlock()
			}
''')],
    '''	for round := 0; round < 300; round++ {
		text := ""
		for i := 0; i < 40; i++ {
			text += fmt.Sprintf("k%d = 1\\n", i)
		}
		f := load(ini.LoadOptions{}, text)
		s := f.Section("")
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() { _ = recover() }()
				for i := g; i < 40; i += 4 {
					s.DeleteKey(fmt.Sprintf("k%d", i))
				}
			}()
		}
		wg.Wait()
		check(len(s.KeyStrings()) == 0, "left: %v", s.KeyStrings())
	}''', imports=["sync"])

bug("c15-extends-first", "C15", "elements of a slice of sections that embed a struct with a section of its own",
    "every element gets the embedded part of the first one",
    [("struct.go", "fieldSection = secs[sectionIndex]\n", "fieldSection = secs[0]\n")],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: true, ChildSectionDelimiter: "."}, "[a]\\n[a.b]\\nX = 1\\n[a]\\n[a.b]\\nX = 2\\n")
	type B struct{ X int }
	type A struct {
		B `ini:"b,extends"`
	}
	var v struct {
		L []A `ini:"a,,,nonunique"`
	}
	err := f.MapTo(&v)
	check(err == nil && len(v.L) == 2 && v.L[0].X == 1 && v.L[1].X == 2, "%v %+v", err, v)''')

bug("c15-dash-tag", "C15", "a field whose key has a name that starts with a dash",
    "the field is left out as if its tag were a dash",
    [("struct.go", '''		if tag == "-" {
			continue
		}

		rawName, _, allow''', '''		if strings.HasPrefix(tag, "-") {
			continue
		}

		rawName, _, allow''')],
    '''	f := load(ini.LoadOptions{}, "-x = 5\\n")
	var v struct {
		X int `ini:"-x"`
	}
	err := f.MapTo(&v)
	check(err == nil && v.X == 5, "%v %+v", err, v)''')

bug("c16-slice-local-time", "C16", "a list of times that are not in the local zone",
    "times in lists are written in local time",
    [("struct.go", "buf.WriteString(slice.Index(i).Interface().(time.Time).Format(time.RFC3339))", "buf.WriteString(slice.Index(i).Interface().(time.Time).Local().Format(time.RFC3339))")],
    '''	f := ini.Empty()
	var v struct{ T []time.Time }
	v.T = []time.Time{time.Date(2024, 1, 2, 3, 4, 5, 0, time.FixedZone("", 5400))}
	err := f.ReflectFrom(&v)
	s := f.Section("").Key("T").String()
	check(err == nil && s == "2024-01-02T03:04:05+01:30", "%v %s", err, s)''', imports=["time"])

bug("c15-mapper-z", "C15", "a field name with a Z in it and the title_underscore mapper",
    "no underscore before Z, which stays in upper case",
    [("struct.go", '''				chr -= 'A' - 'a'
''', '''				if chr < 'Z' {
					chr -= 'A' - 'a'
				}
''')],
    '''	var v struct{ TimeZone string }
	err := ini.MapToWithMapper(&v, ini.TitleUnderscore, []byte("time_zone = x\\n"))
	check(err == nil && v.TimeZone == "x", "%v %+v", err, v)''')

bug("c04-align-kept", "C04", "a long key that is deleted between two aligned writes",
    "the width of the section's names when it was written last is used again",
    [("section.go", "type Section struct {", "type Section struct {\n\talign    int"),
     ("file.go", "		alignLength := 0", "		alignLength := sec.align"), ("file.go", "		alignSpaces := bytes.Repeat", "		sec.align = alignLength\n		alignSpaces := bytes.Repeat")],
    '''	f := load(ini.LoadOptions{}, "a = 1\\nlonger = 2\\n")
	ini.PrettyFormat = true
	write := func(f *ini.File) string {
		var b bytes.Buffer
		_, err := f.WriteTo(&b)
		check(err == nil, "%v", err)
		return b.String()
	}
	write(f)
	f.Section("").DeleteKey("longer")
	check(write(f) == write(load(ini.LoadOptions{}, "a = 1\\n")), "%q", write(f))''', imports=["bytes"])

bug("c10-dup-fold", "C10", "two assignments of values that differ in letter case only",
    "the second one is dropped as a duplicate",
    [("key.go", "		for i := range k.shadows {\n			if k.shadows[i].value == val {", "		for i := range k.shadows {\n			if strings.EqualFold(k.shadows[i].value, val) {")],
    '''	f := load(ini.LoadOptions{AllowShadows: true}, "k = 1\\nk = a\\nk = A\\n")
	l := f.Section("").Key("k").ValueWithShadows()
	check(len(l) == 3, "%q", l)''')

bug("c01-section-trim", "C01", "a section header with spaces inside its brackets",
    "the name is trimmed, so that such a section continues another one",
    [("parser.go", "			name := string(line[1:closeIdx])\n", "			name := strings.TrimSpace(string(line[1:closeIdx]))\n")],
    '''	f := load(ini.LoadOptions{}, "[s]\\na = 1\\n[ s]\\na = 2\\n")
	check(len(f.Sections()) == 3 && f.Section("s").Key("a").Value() == "1", "%q", f.SectionStrings())''')
