"""Changes that break a property (see plant.py).  Written from the property
texts and the code, not from what the checks do."""
from bugs_base import BUGS, bug
import bugs_more

bug("c01-delim-order", "C01", "a line with two different delimiter characters where the later one comes first in the delimiter set",
    "the line is split at the first delimiter of the set instead of the first delimiter in the line",
    [("parser.go", '''	endIdx = strings.IndexAny(line, delimiters)
	if endIdx < 0 {''', '''	endIdx = -1
	for _, d := range delimiters {
		if endIdx = strings.IndexRune(line, d); endIdx >= 0 {
			break
		}
	}
	if endIdx < 0 {''')],
    '''	f := load(ini.LoadOptions{}, "url : http://x/?a=b\\n")
	check(f.Section("").Key("url").Value() == "http://x/?a=b", "value %q of %v", f.Section("").Key("url").Value(), f.Section("").KeyStrings())''')

bug("c03-key-quoting", "C03", "a key name that contains a read delimiter other than the write delimiter",
    "such a key name is written without quotes and read back cut",
    [("file.go", '''			case strings.Contains(kname, "\\"") || strings.ContainsAny(kname, f.options.KeyValueDelimiters):
				kname = "`" + kname + "`"''', '''			case strings.Contains(kname, "\\"") || strings.Contains(kname, f.options.KeyValueDelimiterOnWrite):
				kname = "`" + kname + "`"''')],
    '''	f := ini.Empty()
	f.Section("s").Key("a=b").SetValue("1")
	f.Section("s").Key("host:port").SetValue("x")
	g := load(ini.LoadOptions{}, save(f))
	check(reflect.DeepEqual(g.Section("s").KeysHash(), f.Section("s").KeysHash()), "%v", g.Section("s").KeysHash())''')

bug("c04-comment-changed", "C04", "a key comment set through the API with surrounding space, then writing",
    "writing changes the comment of the key",
    [("file.go", '''			key := sec.Key(kname)
			if len(key.Comment) > 0 {''', '''			key := sec.Key(kname)
			key.Comment = strings.TrimSpace(key.Comment)
			if len(key.Comment) > 0 {''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\n")
	f.Section("").Key("a").Comment = " note "
	save(f)
	check(f.Section("").Key("a").Comment == " note ", "comment %q", f.Section("").Key("a").Comment)''')

bug("c05-bool-comment", "C05", "a comment before a boolean key that is followed by another element",
    "the comment of a boolean key is given to the next element as well",
    [("parser.go", '''					key.Comment = strings.TrimSpace(p.comment.String())
					p.comment.Reset()
					continue

				case''', '''					key.Comment = strings.TrimSpace(p.comment.String())
					continue

				case''')],
    '''	f := load(ini.LoadOptions{AllowBooleanKeys: true}, "# first\\nflag\\nb = 1\\n")
	check(f.Section("").Key("b").Comment == "", "comment %q", f.Section("").Key("b").Comment)''')

bug("c06-hash-after-delete", "C06", "deleting a key and then taking the key-to-value hash",
    "the hash still holds the deleted key",
    [("section.go", '''			delete(s.keys, name)
			delete(s.keysHash, name)
			return''', '''			delete(s.keys, name)
			return''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\nb = 2\\n")
	f.Section("").DeleteKey("a")
	check(reflect.DeepEqual(f.Section("").KeysHash(), map[string]string{"b": "2"}), "%v", f.Section("").KeysHash())''')

bug("c02-skip-boolean", "C02", "skipping unrecognizable lines, and a multi-line key quote error among them",
    "a key quote that is never closed is skipped instead of reported",
    [("parser.go", '''			case IsErrEmptyKeyName(err) && f.options.SkipUnrecognizableLines:
				continue''', '''			case f.options.SkipUnrecognizableLines:
				continue''')],
    '''	_, err := ini.LoadSources(ini.LoadOptions{SkipUnrecognizableLines: true}, []byte("`open = 1\\nb = 1\\n"))
	check(err != nil, "unclosed key quote accepted")''')

bug("c07-raw-fold", "C07", "an unparseable section whose configured name and header differ in case, with InsensitiveSections",
    "the section is parsed as usual",
    [("parser.go", '''((f.options.Insensitive || f.options.InsensitiveSections) && strings.EqualFold(''', '''(f.options.Insensitive && strings.EqualFold(''')],
    '''	f := load(ini.LoadOptions{InsensitiveSections: true, UnparseableSections: []string{"Raw"}}, "[RAW]\\na = 1\\n")
	check(f.Section("raw").Body() == "a = 1", "body %q", f.Section("raw").Body())''')

bug("c08-parents-first", "C08", "a section with at least two existing ancestors",
    "the keys of the farthest ancestor come first in ParentKeys",
    [("section.go", '''			parentKeys = append(parentKeys, sec.Keys()...)''', '''			parentKeys = append(sec.Keys(), parentKeys...)''')],
    '''	f := load(ini.LoadOptions{}, "[a]\\nx = 1\\n[a.b]\\ny = 1\\n[a.b.c]\\nz = 1\\n")
	names := []string{}
	for _, k := range f.Section("a.b.c").ParentKeys() {
		names = append(names, k.Name())
	}
	check(reflect.DeepEqual(names, []string{"y", "x"}), "%v", names)''')

bug("c08-children-prefix", "C08", "a section whose name starts with the name and another character where the delimiter would be, with a delimiter of several characters",
    "children are found by the first character of the delimiter only",
    [("section.go", '''	prefix := s.name + s.f.options.ChildSectionDelimiter
''', '''	prefix := s.name + s.f.options.ChildSectionDelimiter[:1]
''')],
    '''	f := load(ini.LoadOptions{ChildSectionDelimiter: "::"}, "[a]\\n[a:b]\\n[a::c]\\n")
	check(len(f.ChildSections("a")) == 1, "%d children", len(f.ChildSections("a")))''')

bug("c11-append-order", "C11", "appending more than one source at once, with the same key in several of them",
    "the other sources come before the first appended one",
    [("file.go", '''	f.dataSources = append(f.dataSources, ds)
	for _, s := range others {
		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}
	return f.Reload()''', '''	first := ds
	for _, s := range others {
		ds, err = parseDataSource(s)
		if err != nil {
			return err
		}
		f.dataSources = append(f.dataSources, ds)
	}
	f.dataSources = append(f.dataSources, first)
	return f.Reload()''')],
    '''	f := load(ini.LoadOptions{}, "a = 0\\n")
	check(f.Append([]byte("a = 1\\n"), []byte("a = 2\\n")) == nil, "append")
	check(f.Section("").Key("a").Value() == "2", "a is %s", f.Section("").Key("a").Value())''')

bug("c12-index-count", "C12", "non-unique sections, one deleted, then one of the same name created",
    "the index of a new section is taken from the listed sections of any name",
    [("file.go", '''	} else if index''', '''	} else if index''')] if False else
    [("file.go", '''			if len(f.sections[name]) <= 1 {
				delete(f.sections, name) // The last one in the map
			} else {''', '''			if len(f.sections[name]) <= 1 || index+1 == len(f.sections[name]) && index == 0 {
				delete(f.sections, name) // The last one in the map
			} else if index+1 == len(f.sections[name]) {
				f.sections[name] = f.sections[name][:index-1]
			} else {''')],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, "[a]\\nk=0\\n[a]\\nk=1\\n[a]\\nk=2\\n")
	f.DeleteSectionWithIndex("a", 2)
	s, _ := f.SectionsByName("a")
	check(len(s) == 2, "%d sections", len(s))''')

bug("c12-section-index", "C12", "asking for a section index beyond the last one of a name that exists",
    "the last section of that name is returned instead of a new one",
    [("file.go", '''		newSec, _ := f.NewSection(name)
		return newSec
	}

	return secs[index]''', '''		if newSec := name; index <= len(secs) || len(secs) == 0 {
			sec, _ := f.NewSection(newSec)
			return sec
		}
		index = len(secs) - 1
	}

	return secs[index]''')],
    '''	f := load(ini.LoadOptions{AllowNonUniqueSections: true}, "[a]\\nk=0\\n")
	f.SectionWithIndex("a", 2).Key("x").SetValue("1")
	s, _ := f.SectionsByName("a")
	check(len(s) == 2 && !s[0].HasKey("x"), "%d sections", len(s))''')

bug("c14-empty-last", "C14", "a list whose last part is spaces behind the last delimiter",
    "a last part of spaces only is dropped, too",
    [("key.go", '''	if buf.Len() > 0 {
		vals = append(vals, strings.TrimSpace(buf.String()))
	}

	return vals''', '''	if last := strings.TrimSpace(buf.String()); len(last) > 0 {
		vals = append(vals, last)
	}

	return vals''')],
    '''	f := load(ini.LoadOptions{}, "a = `x, y, `\\n")
	check(len(f.Section("").Key("a").Strings(",")) == 3, "%q", f.Section("").Key("a").Strings(","))''')

bug("c16-omit-bool", "C16", "omitempty on a slice that is not nil, but empty, and on false",
    "an empty slice counts as not empty",
    [("struct.go", '''	case reflect.Array, reflect.Map, reflect.Slice, reflect.String:
		return v.Len() == 0''', '''	case reflect.Array, reflect.Map, reflect.Slice:
		return v.IsNil()
	case reflect.String:
		return v.Len() == 0''')],
    '''	f := ini.Empty()
	t := struct {
		A []int `ini:"a,omitempty"`
	}{[]int{}}
	check(ini.ReflectFrom(f, &t) == nil, "reflect")
	check(!f.Section("").HasKey("a"), "a written")''')

bug("c16-comment-overwrite", "C16", "a comment tag on a key that has a comment already",
    "the comment of the document is replaced by the tag's",
    [("struct.go", '''		if len(key.Comment) == 0 {
			key.Comment = tpField.Tag.Get("comment")
		}''', '''		if c := tpField.Tag.Get("comment"); len(c) > 0 {
			key.Comment = c
		}''')],
    '''	f := load(ini.LoadOptions{}, "# mine\\na = 1\\n")
	t := struct {
		A int `ini:"a" comment:"tag"`
	}{2}
	check(ini.ReflectFrom(f, &t) == nil, "reflect")
	check(f.Section("").Key("a").Comment == "# mine", "%q", f.Section("").Key("a").Comment)''')

bug("c18-last-quote", "C18", "a multi-line value with text behind the closing quote that contains no comment",
    "the line is cut at the first quote",
    [("parser.go", '''		pos := strings.LastIndex(next, valQuote)
		if pos > -1 {''', '''		pos := strings.Index(next, valQuote)
		if pos > -1 {''')],
    '''	f := load(ini.LoadOptions{}, "a = `x\\ny` z`\\nb = 1\\n")
	check(f.Section("").Key("a").Value() == "x\\ny` z", "%q", f.Section("").Key("a").Value())''')

bug("c19-nested-tab", "C19", "nested values indented by a tab",
    "lines indented by a tab become keys or errors",
    [("parser.go", '''			if line[0] == ' ' || line[0] == '\\t' {''', '''			if line[0] == ' ' {''')],
    '''	f := load(ini.LoadOptions{AllowNestedValues: true}, "a =\\n\\tx = 1\\n\\ty = 2\\n")
	check(len(f.Section("").Key("a").NestedValues()) == 2, "%v", f.Section("").KeyStrings())''')

bug("c20-raw-pretty", "C20", "a comment line inside a raw section that is followed by another header",
    "a comment line in a raw section goes into the body",
    [("parser.go", '''		if line[0] == '#' || line[0] == ';' {
''', '''		if (line[0] == '#' || line[0] == ';') && !(inUnparseableSection && len(section.rawBody) > 0) {
''')],
    '''	f := load(ini.LoadOptions{UnparseableSections: []string{"raw"}}, "[raw]\\nx\\n; note\\n[s]\\na = 1\\n")
	check(f.Section("raw").Body() == "x", "%q", f.Section("raw").Body())''')

bug("c21-bom", "C21", "a reader that delivers the byte-order mark in pieces",
    "the byte-order mark is only recognised when it is in the buffer at once",
    [("parser.go", '''		mask, err := p.buf.Peek(3)
		if err != nil && err != io.EOF {
			return err
		} else if len(mask) < 3 {
			return nil
		}''', '''		if p.buf.Buffered() < 3 {
			return nil
		}
		mask, err := p.buf.Peek(3)
		if err != nil && err != io.EOF {
			return err
		} else if len(mask) < 3 {
			return nil
		}''')],
    '''	f, err := ini.Load(iotest.OneByteReader(strings.NewReader("\\xef\\xbb\\xbfa = 1\\n")))
	check(err == nil && f.Section("").HasKey("a"), "%v", err)''', imports=["testing/iotest"])

bug("c21-reader-close", "C21", "loading a file whose last line has CR LF and a continuation",
    "a carriage return stays at the end of a multi-line value's last line",
    [("parser.go", '''		if p.options.SpaceBeforeInlineComment {
			i = strings.Index(line, " #")''', '''		if p.options.SpaceBeforeInlineComment {
			if lastChar == '\\r' {
				line += "\\r"
			}
			i = strings.Index(line, " #")''')] if False else
    [("parser.go", '''	lastChar := line[len(line)-1]
	// Won't be able to reach here if value only contains whitespace
	line = strings.TrimSpace(line)
''', '''	lastChar := line[len(line)-1]
	// Won't be able to reach here if value only contains whitespace
	line = strings.TrimRight(line, " \\t\\n\\v\\f")
''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\r\\nb = 2\\r\\n")
	check(f.Section("").Key("a").Value() == "1", "%q", f.Section("").Key("a").Value())''')

bug("c23-keystrings", "C23", "changing the list KeyStrings returned",
    "the returned list is the document's own",
    [("section.go", '''	list := make([]string, len(s.keyList))
	copy(list, s.keyList)
	return list''', '''	return s.keyList[:len(s.keyList):len(s.keyList)]''')],
    '''	f := load(ini.LoadOptions{}, "a = 1\\nb = 2\\nc = 3\\n")
	l := f.Section("").KeyStrings()
	f.Section("").DeleteKey("a")
	check(reflect.DeepEqual(l, []string{"a", "b", "c"}), "%v", l)''')

bug("c17-unlocked-hash", "C17", "taking the hash of a section while another goroutine creates keys",
    "the hash is read without the lock",
    [("section.go", '''func (s *Section) KeysHash() map[string]string {
	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}

	hash''', '''func (s *Section) KeysHash() map[string]string {
	hash''')],
    '''	f := ini.Empty()
	s := f.Section("s")
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ {
			s.Key(fmt.Sprint("k", i)).SetValue("1")
		}
		close(done)
	}()
	for i := 0; i < 2000; i++ {
		s.KeysHash()
	}
	<-done''', race=True)

bug("c17-section-check", "C17", "two goroutines creating the same section at the same time",
    "the section is looked up and created in two steps, so that two goroutines create it twice",
    [("file.go", '''	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}

	if !f.options.AllowNonUniqueSections && inSlice(name, f.sectionList) {
		return f.sections[name][0], nil
	}
''', '''	if !f.options.AllowNonUniqueSections {
		if secs, err := f.SectionsByName(name); err == nil {
			return secs[0], nil
		}
	}

	if f.BlockMode {
		f.lock.Lock()
		defer f.lock.Unlock()
	}
''')],
    '''	for i := 0; i < 3000; i++ {
		f := ini.Empty()
		start := make(chan bool)
		done := make(chan bool)
		for j := 0; j < 4; j++ {
			go func() {
				<-start
				f.NewSection("s")
				done <- true
			}()
		}
		close(start)
		for j := 0; j < 4; j++ {
			<-done
		}
		check(len(f.SectionStrings()) == 2, "%v", f.SectionStrings())
	}''')

bug("c17-recursive-lock", "C17", "a reader listing children while another goroutine waits to write",
    "the read lock is taken twice, which blocks forever once a writer waits in between",
    [("section.go", '''	prefix := s.name + s.f.options.ChildSectionDelimiter
	children := make([]*Section, 0, 3)
''', '''	if s.f.BlockMode {
		s.f.lock.RLock()
		defer s.f.lock.RUnlock()
	}
	children, prefix := make([]*Section, 0, 3), s.name+s.f.options.ChildSectionDelimiter
''')],
    '''	f := load(ini.LoadOptions{}, "[a]\\n[a.b]\\n")
	done := make(chan bool)
	go func() {
		for i := 0; i < 200000; i++ {
			f.ChildSections("a")
		}
		done <- true
	}()
	go func() {
		for i := 0; i < 200000; i++ {
			f.Section("a").Key("k").SetValue("1")
		}
		done <- true
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			check(false, "blocked")
		}
	}''', imports=["time"])
