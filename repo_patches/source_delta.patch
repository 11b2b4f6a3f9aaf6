From 07b10140cf1b43fdecd7dd90020f2ba854250218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:36 +0000
Subject: [PATCH 01/45] fix: saving a comment that contains an empty line does
 not panic

---
 file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f8b2240..615e6fd 100644
--- a/file.go
+++ b/file.go
@@ -349,7 +349,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 			// Support multiline comments
 			lines := strings.Split(sec.Comment, LineBreak)
 			for i := range lines {
-				if lines[i][0] != '#' && lines[i][0] != ';' {
+				if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 					lines[i] = "; " + lines[i]
 				} else {
 					lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
@@ -419,7 +419,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// Support multiline comments
 				lines := strings.Split(key.Comment, LineBreak)
 				for i := range lines {
-					if lines[i][0] != '#' && lines[i][0] != ';' {
+					if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
 					} else {
 						lines[i] = lines[i][:1] + " " + strings.TrimSpace(lines[i][1:])
-- 
2.43.0


From a3895393081dfeadf75a4a5a36b4a2d165d252b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:37 +0000
Subject: [PATCH 02/45] fix: DeleteKey ignores letter case when key names are
 case-insensitive

---
 section.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/section.go b/section.go
index a3615d8..2b1e2b9 100644
--- a/section.go
+++ b/section.go
@@ -226,6 +226,10 @@ func (s *Section) KeysHash() map[string]string {
 
 // DeleteKey deletes a key from section.
 func (s *Section) DeleteKey(name string) {
+	if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
+		name = strings.ToLower(name)
+	}
+
 	if s.f.BlockMode {
 		s.f.lock.Lock()
 		defer s.f.lock.Unlock()
-- 
2.43.0


From f44ebfc37b08e9d4dd2fa8581805b589f9514a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:38 +0000
Subject: [PATCH 03/45] fix: a created section named DEFAULT can be found when
 section names are case-insensitive

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 615e6fd..6a590bb 100644
--- a/file.go
+++ b/file.go
@@ -85,7 +85,7 @@ func (f *File) NewSection(name string) (*Section, error) {
 		return nil, errors.New("empty section name")
 	}
 
-	if (f.options.Insensitive || f.options.InsensitiveSections) && name != DefaultSection {
+	if f.options.Insensitive || f.options.InsensitiveSections {
 		name = strings.ToLower(name)
 	}
 
-- 
2.43.0


From e30891d6d7af6f87e9ecf3ce6e6945a903a482fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 04/45] fix: the key-to-value hash follows defaults set by Must
 methods and forgets deleted keys

---
 key.go | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index a19d9f3..c3c7537 100644
--- a/key.go
+++ b/key.go
@@ -252,7 +252,7 @@ func (k *Key) Time() (time.Time, error) {
 func (k *Key) MustString(defaultVal string) string {
 	val := k.String()
 	if len(val) == 0 {
-		k.value = defaultVal
+		k.SetValue(defaultVal)
 		return defaultVal
 	}
 	return val
@@ -263,7 +263,7 @@ func (k *Key) MustString(defaultVal string) string {
 func (k *Key) MustBool(defaultVal ...bool) bool {
 	val, err := k.Bool()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatBool(defaultVal[0])
+		k.SetValue(strconv.FormatBool(defaultVal[0]))
 		return defaultVal[0]
 	}
 	return val
@@ -274,7 +274,7 @@ func (k *Key) MustBool(defaultVal ...bool) bool {
 func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 	val, err := k.Float64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatFloat(defaultVal[0], 'f', -1, 64)
+		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
 	return val
@@ -285,7 +285,7 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 func (k *Key) MustInt(defaultVal ...int) int {
 	val, err := k.Int()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(int64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -296,7 +296,7 @@ func (k *Key) MustInt(defaultVal ...int) int {
 func (k *Key) MustInt64(defaultVal ...int64) int64 {
 	val, err := k.Int64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatInt(defaultVal[0], 10)
+		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -307,7 +307,7 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 func (k *Key) MustUint(defaultVal ...uint) uint {
 	val, err := k.Uint()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(uint64(defaultVal[0]), 10)
+		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
 	return val
@@ -318,7 +318,7 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 	val, err := k.Uint64()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = strconv.FormatUint(defaultVal[0], 10)
+		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
 	return val
@@ -329,7 +329,7 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 	val, err := k.Duration()
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].String()
+		k.SetValue(defaultVal[0].String())
 		return defaultVal[0]
 	}
 	return val
@@ -340,7 +340,7 @@ func (k *Key) MustDuration(defaultVal ...time.Duration) time.Duration {
 func (k *Key) MustTimeFormat(format string, defaultVal ...time.Time) time.Time {
 	val, err := k.TimeFormat(format)
 	if len(defaultVal) > 0 && err != nil {
-		k.value = defaultVal[0].Format(format)
+		k.SetValue(defaultVal[0].Format(format))
 		return defaultVal[0]
 	}
 	return val
@@ -833,5 +833,8 @@ func (k *Key) SetValue(v string) {
 	}
 
 	k.value = v
-	k.s.keysHash[k.name] = v
+	// The key may have been deleted from its section, or be a shadow.
+	if k.s.keys[k.name] == k {
+		k.s.keysHash[k.name] = v
+	}
 }
-- 
2.43.0


From 73f43ad0eca75a591678867199023e7d975a58bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:54 +0000
Subject: [PATCH 05/45] fix: Strings splits at delimiters with non-ASCII
 characters without skipping text or panicking

---
 key.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/key.go b/key.go
index c3c7537..d936d85 100644
--- a/key.go
+++ b/key.go
@@ -21,6 +21,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 )
 
 // Key represents a key under a section.
@@ -511,7 +512,7 @@ func (k *Key) Strings(delim string) []string {
 			if runes[idx] == '\\' {
 				escape = true
 			} else if strings.HasPrefix(string(runes[idx:]), delim) {
-				idx += len(delim) - 1
+				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-- 
2.43.0


From ccca51e4297c6ff54efbc69620f538c9452107e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:55 +0000
Subject: [PATCH 06/45] fix: Strings keeps a backslash at the end of the value

---
 key.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/key.go b/key.go
index d936d85..cc1b353 100644
--- a/key.go
+++ b/key.go
@@ -525,6 +525,10 @@ func (k *Key) Strings(delim string) []string {
 		}
 	}
 
+	if escape {
+		// Nothing follows the last backslash, it does not escape anything.
+		buf.WriteRune('\\')
+	}
 	if buf.Len() > 0 {
 		vals = append(vals, strings.TrimSpace(buf.String()))
 	}
-- 
2.43.0


From 0e5935ffc52c187c3ac1fb4541155090ea634f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 07/45] fix: reading a value terminates when cyclic references
 multiply

---
 ini.go | 2 ++
 key.go | 6 ++++++
 2 files changed, 8 insertions(+)

diff --git a/ini.go b/ini.go
index 99e7f86..f374595 100644
--- a/ini.go
+++ b/ini.go
@@ -25,6 +25,8 @@ import (
 const (
 	// Maximum allowed depth when recursively substituing variable names.
 	depthValues = 99
+	// Maximum allowed length of a value in which variable names are substituted.
+	maxExpandedLength = 1 << 24
 )
 
 var (
diff --git a/key.go b/key.go
index cc1b353..aa3e7ab 100644
--- a/key.go
+++ b/key.go
@@ -170,6 +170,12 @@ func (k *Key) transformValue(val string) string {
 			}
 		}
 
+		// References that form a cycle can multiply in every round, stop before
+		// the result outgrows any reasonable value.
+		if len(val)+strings.Count(val, vr)*(len(nk.value)-len(vr)) > maxExpandedLength {
+			break
+		}
+
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
 		val = strings.Replace(val, vr, nk.value, -1)
 	}
-- 
2.43.0


From 4ab83bddfab7cd0f92be2cf2f2746758c31b5d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:15 +0000
Subject: [PATCH 08/45] fix: Python-like multi-line values are read whole,
 whatever the reader buffer size

---
 parser.go | 60 ++++++++++++++-----------------------------------------
 1 file changed, 15 insertions(+), 45 deletions(-)

diff --git a/parser.go b/parser.go
index 44fc526..5a3dc81 100644
--- a/parser.go
+++ b/parser.go
@@ -27,7 +27,7 @@ import (
 
 const minReaderBufferSize = 4096
 
-var pythonMultiline = regexp.MustCompile(`^([\t\f ]+)(.*)`)
+var pythonMultiline = regexp.MustCompile(`^[\t\f ]`)
 
 type parserOptions struct {
 	IgnoreContinuation          bool
@@ -225,12 +225,12 @@ func hasSurroundedQuote(in string, quote byte) bool {
 		strings.IndexByte(in[1:], quote) == len(in)-2
 }
 
-func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
+func (p *parser) readValue(in []byte) (string, error) {
 
 	line := strings.TrimLeftFunc(string(in), unicode.IsSpace)
 	if len(line) == 0 {
 		if p.options.AllowPythonMultilineValues && len(in) > 0 && in[len(in)-1] == '\n' {
-			return p.readPythonMultilines(line, bufferSize)
+			return p.readPythonMultilines(line)
 		}
 		return "", nil
 	}
@@ -296,45 +296,36 @@ func (p *parser) readValue(in []byte, bufferSize int) (string, error) {
 		line = strings.ReplaceAll(line, `\;`, ";")
 		line = strings.ReplaceAll(line, `\#`, "#")
 	} else if p.options.AllowPythonMultilineValues && lastChar == '\n' {
-		return p.readPythonMultilines(line, bufferSize)
+		return p.readPythonMultilines(line)
 	}
 
 	return line, nil
 }
 
-func (p *parser) readPythonMultilines(line string, bufferSize int) (string, error) {
-	parserBufferPeekResult, _ := p.buf.Peek(bufferSize)
-	peekBuffer := bytes.NewBuffer(parserBufferPeekResult)
-
+func (p *parser) readPythonMultilines(line string) (string, error) {
 	for {
-		peekData, peekErr := peekBuffer.ReadBytes('\n')
+		// Look at one byte only, so that neither the length of the value nor the
+		// size of the buffer matter.
+		peekData, peekErr := p.buf.Peek(1)
 		if peekErr != nil && peekErr != io.EOF {
 			p.debug("readPythonMultilines: failed to peek with error: %v", peekErr)
 			return "", peekErr
 		}
 
-		p.debug("readPythonMultilines: parsing %q", string(peekData))
-
-		peekMatches := pythonMultiline.FindStringSubmatch(string(peekData))
-		p.debug("readPythonMultilines: matched %d parts", len(peekMatches))
-		for n, v := range peekMatches {
-			p.debug("   %d: %q", n, v)
-		}
-
 		// Return if not a Python multiline value.
-		if len(peekMatches) != 3 {
+		if !pythonMultiline.Match(peekData) {
 			p.debug("readPythonMultilines: end of value, got: %q", line)
 			return line, nil
 		}
 
-		// Advance the parser reader (buffer) in-sync with the peek buffer.
-		_, err := p.buf.Discard(len(peekData))
+		data, err := p.readUntil('\n')
 		if err != nil {
-			p.debug("readPythonMultilines: failed to skip to the end, returning error")
+			p.debug("readPythonMultilines: failed to read with error: %v", err)
 			return "", err
 		}
+		p.debug("readPythonMultilines: parsing %q", string(data))
 
-		line += "\n" + peekMatches[0]
+		line += "\n" + strings.TrimSuffix(string(data), "\n")
 	}
 }
 
@@ -369,27 +360,6 @@ func (f *File) parse(reader io.Reader) (err error) {
 	var line []byte
 	var inUnparseableSection bool
 
-	// NOTE: Iterate and increase `currentPeekSize` until
-	// the size of the parser buffer is found.
-	// TODO(unknwon): When Golang 1.10 is the lowest version supported, replace with `parserBufferSize := p.buf.Size()`.
-	parserBufferSize := 0
-	// NOTE: Peek 4kb at a time.
-	currentPeekSize := minReaderBufferSize
-
-	if f.options.AllowPythonMultilineValues {
-		for {
-			peekBytes, _ := p.buf.Peek(currentPeekSize)
-			peekBytesLength := len(peekBytes)
-
-			if parserBufferSize >= peekBytesLength {
-				break
-			}
-
-			currentPeekSize *= 2
-			parserBufferSize = peekBytesLength
-		}
-	}
-
 	for !p.isEOF {
 		line, err = p.readUntil('\n')
 		if err != nil {
@@ -472,7 +442,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			case IsErrDelimiterNotFound(err):
 				switch {
 				case f.options.AllowBooleanKeys:
-					kname, err := p.readValue(line, parserBufferSize)
+					kname, err := p.readValue(line)
 					if err != nil {
 						return err
 					}
@@ -501,7 +471,7 @@ func (f *File) parse(reader io.Reader) (err error) {
 			p.count++
 		}
 
-		value, err := p.readValue(line[offset:], parserBufferSize)
+		value, err := p.readValue(line[offset:])
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 4dfbf2a772ac3d5ec6c689b8810e3f74eefac072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:35 +0000
Subject: [PATCH 09/45] fix: values that would be read differently are quoted
 when saved

---
 file.go | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 6a590bb..6c53387 100644
--- a/file.go
+++ b/file.go
@@ -333,6 +333,29 @@ func (f *File) Append(source interface{}, others ...interface{}) error {
 	return f.Reload()
 }
 
+// needsBackquotes returns true if the value has to be surrounded by backquotes
+// to be read back as it is with the options of the file.
+func (f *File) needsBackquotes(val string) bool {
+	switch {
+	case !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;"):
+		return true
+	case f.options.UnescapeValueCommentSymbols && (strings.Contains(val, `\#`) || strings.Contains(val, `\;`)):
+		return true
+	case !f.options.IgnoreContinuation && strings.HasSuffix(val, `\`):
+		return true
+	case len(val) > 3 && strings.HasPrefix(val, `"""`):
+		return true
+	case f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`):
+		return true
+	case !f.options.PreserveSurroundedQuote && (hasSurroundedQuote(val, '\'') || hasSurroundedQuote(val, '"')):
+		return true
+	case len(strings.TrimSpace(val)) != len(val):
+		// Double quotes are good enough when they are taken off again.
+		return f.options.PreserveSurroundedQuote || strings.Contains(val, `"`)
+	}
+	return false
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -462,7 +485,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				// In case key value contains "\n", "`", "\"", "#" or ";"
 				if strings.ContainsAny(val, "\n`") {
 					val = `"""` + val + `"""`
-				} else if !f.options.IgnoreInlineComment && strings.ContainsAny(val, "#;") {
+				} else if f.needsBackquotes(val) {
 					val = "`" + val + "`"
 				} else if len(strings.TrimSpace(val)) != len(val) {
 					val = `"` + val + `"`
-- 
2.43.0


From e173f96a71452c9c73aa4cf1bdefbfb245717012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:36 +0000
Subject: [PATCH 10/45] fix: the section after a raw body without final line
 break is not lost when saved

---
 file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 6c53387..c90c3fa 100644
--- a/file.go
+++ b/file.go
@@ -401,7 +401,9 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				return nil, err
 			}
 
-			if PrettySection && !isLastSection {
+			// The next header must not become part of the body.
+			needsLineBreak := len(sec.rawBody) > 0 && !strings.HasSuffix(sec.rawBody, "\n")
+			if (PrettySection || needsLineBreak) && !isLastSection {
 				// Put a line between sections
 				if _, err := buf.WriteString(LineBreak); err != nil {
 					return nil, err
-- 
2.43.0


From 6ba765e783de2ce6092bf103f6f1cabed804f81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 11/45] fix: the value assigned to a boolean key is saved

---
 file.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index c90c3fa..f3f1147 100644
--- a/file.go
+++ b/file.go
@@ -474,7 +474,8 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 					return false, err
 				}
 
-				if key.isBooleanType {
+				// A boolean key may have been given another value since it was created.
+				if key.isBooleanType && val == "true" {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
-- 
2.43.0


From bec724ed1d3b48d1776e5ca848974d855b56f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:20 +0000
Subject: [PATCH 12/45] fix: the lists SectionsByName and NestedValues return
 are snapshots

---
 file.go | 5 ++++-
 key.go  | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index f3f1147..bd9da33 100644
--- a/file.go
+++ b/file.go
@@ -167,7 +167,10 @@ func (f *File) SectionsByName(name string) ([]*Section, error) {
 		return nil, fmt.Errorf("section %q does not exist", name)
 	}
 
-	return secs, nil
+	// Deleting sections changes the list in place.
+	list := make([]*Section, len(secs))
+	copy(list, secs)
+	return list, nil
 }
 
 // Section assumes named section exists and returns a zero-value when not.
diff --git a/key.go b/key.go
index aa3e7ab..273cb68 100644
--- a/key.go
+++ b/key.go
@@ -136,7 +136,12 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
-	return k.nestedValues
+	if k.nestedValues == nil {
+		return nil
+	}
+	vals := make([]string, len(k.nestedValues))
+	copy(vals, k.nestedValues)
+	return vals
 }
 
 // transformValue takes a raw value and transforms to its final string.
-- 
2.43.0


From b42da1f92ead052ce17feb17042fd0607803a2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:21 +0000
Subject: [PATCH 13/45] fix: ChildSections lists every section once when names
 are not unique

---
 section.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/section.go b/section.go
index 2b1e2b9..3d5d32f 100644
--- a/section.go
+++ b/section.go
@@ -251,9 +251,9 @@ func (s *Section) DeleteKey(name string) {
 func (s *Section) ChildSections() []*Section {
 	prefix := s.name + s.f.options.ChildSectionDelimiter
 	children := make([]*Section, 0, 3)
-	for _, name := range s.f.sectionList {
-		if strings.HasPrefix(name, prefix) {
-			children = append(children, s.f.sections[name]...)
+	for _, sec := range s.f.Sections() {
+		if strings.HasPrefix(sec.name, prefix) {
+			children = append(children, sec)
 		}
 	}
 	return children
-- 
2.43.0


From 6b9bd5e2f9fb823693c75c499e5d84b4e1a1aa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 14/45] fix: strict mapping reports invalid list elements

---
 struct.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/struct.go b/struct.go
index a486b2f..9b41b34 100644
--- a/struct.go
+++ b/struct.go
@@ -99,23 +99,23 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	case reflect.String:
 		vals = strs
 	case reflect.Int:
-		vals, err = key.parseInts(strs, true, false)
+		vals, err = key.parseInts(strs, !isStrict, isStrict)
 	case reflect.Int64:
-		vals, err = key.parseInt64s(strs, true, false)
+		vals, err = key.parseInt64s(strs, !isStrict, isStrict)
 	case reflect.Uint:
-		vals, err = key.parseUints(strs, true, false)
+		vals, err = key.parseUints(strs, !isStrict, isStrict)
 	case reflect.Uint64:
-		vals, err = key.parseUint64s(strs, true, false)
+		vals, err = key.parseUint64s(strs, !isStrict, isStrict)
 	case reflect.Float64:
-		vals, err = key.parseFloat64s(strs, true, false)
+		vals, err = key.parseFloat64s(strs, !isStrict, isStrict)
 	case reflect.Bool:
-		vals, err = key.parseBools(strs, true, false)
+		vals, err = key.parseBools(strs, !isStrict, isStrict)
 	case reflectTime:
-		vals, err = key.parseTimesFormat(time.RFC3339, strs, true, false)
+		vals, err = key.parseTimesFormat(time.RFC3339, strs, !isStrict, isStrict)
 	default:
 		return fmt.Errorf("unsupported type '[]%s'", sliceOf)
 	}
-	if err != nil && isStrict {
+	if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 49a8b915a7f4d6ba4c5cbf82065ae4a66125f74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:54 +0000
Subject: [PATCH 15/45] fix: mapping to pointers and slices of named types and
 to struct fields does not panic

---
 struct.go | 38 ++++++++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/struct.go b/struct.go
index 9b41b34..6de0d88 100644
--- a/struct.go
+++ b/struct.go
@@ -75,7 +75,10 @@ func parseDelim(actual string) string {
 	return ","
 }
 
-var reflectTime = reflect.TypeOf(time.Now()).Kind()
+var (
+	timeType    = reflect.TypeOf(time.Time{})
+	reflectTime = timeType.Kind()
+)
 
 // setSliceWithProperType sets proper values to slice based on its type.
 func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow, isStrict bool) error {
@@ -94,7 +97,11 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	var vals interface{}
 	var err error
 
-	sliceOf := field.Type().Elem().Kind()
+	elemType := field.Type().Elem()
+	sliceOf := elemType.Kind()
+	if sliceOf == reflectTime && elemType != timeType {
+		return fmt.Errorf("unsupported type '[]%s'", elemType)
+	}
 	switch sliceOf {
 	case reflect.String:
 		vals = strs
@@ -123,21 +130,21 @@ func setSliceWithProperType(key *Key, field reflect.Value, delim string, allowSh
 	for i := 0; i < numVals; i++ {
 		switch sliceOf {
 		case reflect.String:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]string)[i]).Convert(elemType))
 		case reflect.Int:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]int)[i]).Convert(elemType))
 		case reflect.Int64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]int64)[i]).Convert(elemType))
 		case reflect.Uint:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]uint)[i]).Convert(elemType))
 		case reflect.Uint64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]uint64)[i]).Convert(elemType))
 		case reflect.Float64:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]float64)[i]).Convert(elemType))
 		case reflect.Bool:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]bool)[i]).Convert(elemType))
 		case reflectTime:
-			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]))
+			slice.Index(i).Set(reflect.ValueOf(vals.([]time.Time)[i]).Convert(elemType))
 		}
 	}
 	field.Set(slice)
@@ -164,7 +171,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	case reflect.String:
 		stringVal := key.String()
 		if isPtr {
-			field.Set(reflect.ValueOf(&stringVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetString(stringVal)
+			field.Set(pv)
 		} else if len(stringVal) > 0 {
 			field.SetString(key.String())
 		}
@@ -174,7 +183,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 			return wrapStrictError(err, isStrict)
 		}
 		if isPtr {
-			field.Set(reflect.ValueOf(&boolVal))
+			pv := reflect.New(vt)
+			pv.Elem().SetBool(boolVal)
+			field.Set(pv)
 		} else {
 			field.SetBool(boolVal)
 		}
@@ -247,6 +258,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	case reflectTime:
 		timeVal, err := key.Time()
+		if err == nil && vt != timeType {
+			err = fmt.Errorf("unsupported type %q", t)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From 9dd1a1103f4585e859ed446a6987549940ccdf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:55 +0000
Subject: [PATCH 16/45] fix: mapping a duration text to an unsigned integer
 does not panic

---
 struct.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/struct.go b/struct.go
index 6de0d88..68de788 100644
--- a/struct.go
+++ b/struct.go
@@ -221,17 +221,6 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-		durationVal, err := key.Duration()
-		// Skip zero value
-		if err == nil && uint64(durationVal) > 0 {
-			if isPtr {
-				field.Set(reflect.ValueOf(&durationVal))
-			} else {
-				field.Set(reflect.ValueOf(durationVal))
-			}
-			return nil
-		}
-
 		uintVal, err := key.Uint64()
 		if err != nil {
 			return wrapStrictError(err, isStrict)
-- 
2.43.0


From 68c27ba37bad4c9c82c656ce5579562eae19834c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:56 +0000
Subject: [PATCH 17/45] fix: map numbers to duration pointers, and zero and
 negative durations

---
 struct.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/struct.go b/struct.go
index 68de788..d6cbe5b 100644
--- a/struct.go
+++ b/struct.go
@@ -191,18 +191,19 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		// ParseDuration will not return err for `0`, so check the type name
-		if vt.Name() == "Duration" {
+		if vt == reflect.TypeOf(time.Duration(0)) {
 			durationVal, err := key.Duration()
 			if err != nil {
-				if intVal, err := key.Int64(); err == nil {
-					field.SetInt(intVal)
-					return nil
+				// A number without unit is in nanoseconds.
+				intVal, intErr := key.Int64()
+				if intErr != nil {
+					return wrapStrictError(err, isStrict)
 				}
-				return wrapStrictError(err, isStrict)
+				durationVal = time.Duration(intVal)
 			}
 			if isPtr {
 				field.Set(reflect.ValueOf(&durationVal))
-			} else if int64(durationVal) > 0 {
+			} else {
 				field.Set(reflect.ValueOf(durationVal))
 			}
 			return nil
-- 
2.43.0


From 005af06b4a08cac72963f25a65e414f1147e8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:58 +0000
Subject: [PATCH 18/45] fix: mapping does not truncate numbers that are too big
 for the field

---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index d6cbe5b..d1d7634 100644
--- a/struct.go
+++ b/struct.go
@@ -210,6 +210,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 		}
 
 		intVal, err := key.Int64()
+		if err == nil && reflect.Zero(vt).OverflowInt(intVal) {
+			err = fmt.Errorf("value %v overflows type %q", intVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -223,6 +226,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 	//	byte is an alias for uint8, so supporting uint8 breaks support for byte
 	case reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		uintVal, err := key.Uint64()
+		if err == nil && reflect.Zero(vt).OverflowUint(uintVal) {
+			err = fmt.Errorf("value %v overflows type %q", uintVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
@@ -236,6 +242,9 @@ func setWithProperType(t reflect.Type, key *Key, field reflect.Value, delim stri
 
 	case reflect.Float32, reflect.Float64:
 		floatVal, err := key.Float64()
+		if err == nil && reflect.Zero(vt).OverflowFloat(floatVal) {
+			err = fmt.Errorf("value %v overflows type %q", floatVal, vt)
+		}
 		if err != nil {
 			return wrapStrictError(err, isStrict)
 		}
-- 
2.43.0


From a87dacb88846cd0616e090694ab58e98f1669ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 19/45] fix: mapping a slice of non-unique sections does not
 fail when there are none

---
 struct.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/struct.go b/struct.go
index d1d7634..90e9c82 100644
--- a/struct.go
+++ b/struct.go
@@ -351,6 +351,10 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 
 		// Map non-unique sections
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
+			// Leave the field alone if there is no section for it.
+			if !s.f.HasSection(fieldName) {
+				continue
+			}
 			newField, err := s.mapToSlice(fieldName, field, isStrict)
 			if err != nil {
 				return fmt.Errorf("map to slice %q: %v", fieldName, err)
-- 
2.43.0


From 978f32c6bee041f175547a646c03b777237b89f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:29 +0000
Subject: [PATCH 20/45] fix: mapping keeps what an embedded pointer already
 points to

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 90e9c82..b93d3ea 100644
--- a/struct.go
+++ b/struct.go
@@ -314,7 +314,7 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		isStruct := tpField.Type.Kind() == reflect.Struct
 		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
-		if isAnonymousPtr {
+		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
 		}
 
-- 
2.43.0


From d664aade358b6aa3684eac9ee6b8bedcd3682204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 21/45] fix: reflecting goes on after an empty non-unique slice
 or a StructReflector field

---
 struct.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index b93d3ea..b8adec7 100644
--- a/struct.go
+++ b/struct.go
@@ -615,7 +615,10 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		if r, ok := field.Interface().(StructReflector); ok {
-			return r.ReflectINIStruct(s.f)
+			if err := r.ReflectINIStruct(s.f); err != nil {
+				return err
+			}
+			continue
 		}
 
 		fieldName := s.parseFieldName(tpField.Name, rawName)
@@ -653,7 +656,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		if allowNonUnique && tpField.Type.Kind() == reflect.Slice {
 			slice := field.Slice(0, field.Len())
 			if field.Len() == 0 {
-				return nil
+				continue
 			}
 			sliceOf := field.Type().Elem().Kind()
 
-- 
2.43.0


From c0eae1e5158b985bbcbda02b1908db4bea899408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 22/45] fix: reflecting nil struct pointers does not panic and
 pointers to times are keys

---
 struct.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index b8adec7..63a3f98 100644
--- a/struct.go
+++ b/struct.go
@@ -614,6 +614,12 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
+		// There is nothing to write for a nil pointer to a struct.
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType
+		if isStructPtr && field.IsNil() {
+			continue
+		}
+
 		if r, ok := field.Interface().(StructReflector); ok {
 			if err := r.ReflectINIStruct(s.f); err != nil {
 				return err
@@ -633,8 +639,7 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 			continue
 		}
 
-		if (tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct) ||
-			(tpField.Type.Kind() == reflect.Struct && tpField.Type.Name() != "Time") {
+		if isStructPtr || (tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType) {
 			// Note: The only error here is section doesn't exist.
 			sec, err := s.f.GetSection(fieldName)
 			if err != nil {
-- 
2.43.0


From e47efb914f44787f417a0ecd0be28d81adb5b2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:50 +0000
Subject: [PATCH 23/45] fix: mapping to a slice of pointers to structs does not
 panic

---
 struct.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/struct.go b/struct.go
index 63a3f98..4b6fdb6 100644
--- a/struct.go
+++ b/struct.go
@@ -384,6 +384,16 @@ func (s *Section) mapToSlice(secName string, val reflect.Value, isStrict bool) (
 
 	typ := val.Type().Elem()
 	for i, sec := range secs {
+		if typ.Kind() == reflect.Ptr {
+			elem := reflect.New(typ.Elem())
+			if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
+				return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
+			}
+
+			val = reflect.Append(val, elem)
+			continue
+		}
+
 		elem := reflect.New(typ)
 		if err = sec.mapToField(elem, isStrict, i, sec.name); err != nil {
 			return reflect.Value{}, fmt.Errorf("map to field from section %q: %v", secName, err)
-- 
2.43.0


From ff1e6e59a30fd4a5398fcaecc9c19dc5ea1e6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 24/45] fix: reflecting a slice overwrites all old values of
 its key and keeps the comment

---
 struct.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 4b6fdb6..729002d 100644
--- a/struct.go
+++ b/struct.go
@@ -486,6 +486,8 @@ func StrictMapTo(v, source interface{}, others ...interface{}) error {
 func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, allowShadow bool) error {
 	slice := field.Slice(0, field.Len())
 	if field.Len() == 0 {
+		key.shadows = nil
+		key.SetValue("")
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
@@ -517,7 +519,8 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 				_ = keyWithShadows.AddShadow(val)
 			}
 		}
-		*key = *keyWithShadows
+		key.shadows = keyWithShadows.shadows
+		key.SetValue(keyWithShadows.value)
 		return nil
 	}
 
@@ -541,6 +544,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		}
 		buf.WriteString(delim)
 	}
+	key.shadows = nil
 	key.SetValue(buf.String()[:buf.Len()-len(delim)])
 	return nil
 }
-- 
2.43.0


From 2c0d7096f3d230ef07b3dbade694064350cfc3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:08 +0000
Subject: [PATCH 25/45] fix: reflecting into a child section does not overwrite
 keys of its parents

---
 struct.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 729002d..9c8e8b2 100644
--- a/struct.go
+++ b/struct.go
@@ -702,8 +702,9 @@ func (s *Section) reflectFrom(val reflect.Value) error {
 		}
 
 		// Note: Same reason as section.
+		// A key that is inherited from a parent section belongs to that section.
 		key, err := s.GetKey(fieldName)
-		if err != nil {
+		if err != nil || key.s != s {
 			key, _ = s.NewKey(fieldName, "")
 		}
 
-- 
2.43.0


From e9b8ae4cea2d1f9d9a482d3e6f5259fd517b304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:09 +0000
Subject: [PATCH 26/45] fix: reflecting a slice with allowshadow keeps all
 elements when shadows are disabled

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 9c8e8b2..aca21b2 100644
--- a/struct.go
+++ b/struct.go
@@ -492,7 +492,7 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 	}
 	sliceOf := field.Type().Elem().Kind()
 
-	if allowShadow {
+	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
 		for i := 0; i < field.Len(); i++ {
 			var val string
-- 
2.43.0


From ed83974cded9c21730ae0c6ad8818b22c804b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:09 +0000
Subject: [PATCH 27/45] fix: listing names and keys and reading values takes
 the lock

---
 file.go    |  5 +++++
 key.go     | 32 +++++++++++++++++++++++++++++---
 section.go | 22 +++++++++++++++++++++-
 3 files changed, 55 insertions(+), 4 deletions(-)

diff --git a/file.go b/file.go
index bd9da33..52335e7 100644
--- a/file.go
+++ b/file.go
@@ -220,6 +220,11 @@ func (f *File) ChildSections(name string) []*Section {
 
 // SectionStrings returns list of section names.
 func (f *File) SectionStrings() []string {
+	if f.BlockMode {
+		f.lock.RLock()
+		defer f.lock.RUnlock()
+	}
+
 	list := make([]string, len(f.sectionList))
 	copy(list, f.sectionList)
 	return list
diff --git a/key.go b/key.go
index 273cb68..052a890 100644
--- a/key.go
+++ b/key.go
@@ -78,6 +78,11 @@ func (k *Key) AddShadow(val string) error {
 	if !k.s.f.options.AllowShadows {
 		return errors.New("shadow key is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addShadow(val)
 }
 
@@ -95,6 +100,11 @@ func (k *Key) AddNestedValue(val string) error {
 	if !k.s.f.options.AllowNestedValues {
 		return errors.New("nested value is not allowed")
 	}
+
+	if k.s.f.BlockMode {
+		k.s.f.lock.Lock()
+		defer k.s.f.lock.Unlock()
+	}
 	return k.addNestedValue(val)
 }
 
@@ -108,12 +118,22 @@ func (k *Key) Name() string {
 
 // Value returns raw value of key for performance purpose.
 func (k *Key) Value() string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	return k.value
 }
 
 // ValueWithShadows returns raw values of key and its shadows if any. Shadow
 // keys with empty values are ignored from the returned list.
 func (k *Key) ValueWithShadows() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	if len(k.shadows) == 0 {
 		if k.value == "" {
 			return []string{}
@@ -136,6 +156,11 @@ func (k *Key) ValueWithShadows() []string {
 // NestedValues returns nested values stored in the key.
 // It is possible returned value is nil if no nested values stored in the key.
 func (k *Key) NestedValues() []string {
+	if k.s.f.BlockMode {
+		k.s.f.lock.RLock()
+		defer k.s.f.lock.RUnlock()
+	}
+
 	if k.nestedValues == nil {
 		return nil
 	}
@@ -177,19 +202,20 @@ func (k *Key) transformValue(val string) string {
 
 		// References that form a cycle can multiply in every round, stop before
 		// the result outgrows any reasonable value.
-		if len(val)+strings.Count(val, vr)*(len(nk.value)-len(vr)) > maxExpandedLength {
+		newVal := nk.Value()
+		if len(val)+strings.Count(val, vr)*(len(newVal)-len(vr)) > maxExpandedLength {
 			break
 		}
 
 		// Substitute by new value and take off leading '%(' and trailing ')s'.
-		val = strings.Replace(val, vr, nk.value, -1)
+		val = strings.Replace(val, vr, newVal, -1)
 	}
 	return val
 }
 
 // String returns string representation of value.
 func (k *Key) String() string {
-	return k.transformValue(k.value)
+	return k.transformValue(k.Value())
 }
 
 // Validate accepts a validate function which can
diff --git a/section.go b/section.go
index 3d5d32f..433efd3 100644
--- a/section.go
+++ b/section.go
@@ -51,11 +51,21 @@ func (s *Section) Name() string {
 // Body returns rawBody of Section if the section was marked as unparseable.
 // It still follows the other rules of the INI format surrounding leading/trailing whitespace.
 func (s *Section) Body() string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	return strings.TrimSpace(s.rawBody)
 }
 
 // SetBody updates body content only if section is raw.
 func (s *Section) SetBody(body string) {
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
+
 	if !s.isRawSection {
 		return
 	}
@@ -176,9 +186,14 @@ func (s *Section) Key(name string) *Key {
 
 // Keys returns list of keys of section.
 func (s *Section) Keys() []*Key {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	keys := make([]*Key, len(s.keyList))
 	for i := range s.keyList {
-		keys[i] = s.Key(s.keyList[i])
+		keys[i] = s.keys[s.keyList[i]]
 	}
 	return keys
 }
@@ -205,6 +220,11 @@ func (s *Section) ParentKeys() []*Key {
 
 // KeyStrings returns list of key names of section.
 func (s *Section) KeyStrings() []string {
+	if s.f.BlockMode {
+		s.f.lock.RLock()
+		defer s.f.lock.RUnlock()
+	}
+
 	list := make([]string, len(s.keyList))
 	copy(list, s.keyList)
 	return list
-- 
2.43.0


From c4727780187c4b21c2e39a9d0ed1ff1ded029a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:11 +0000
Subject: [PATCH 28/45] fix: Key does not overwrite a key that is created at
 the same time

---
 section.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/section.go b/section.go
index 433efd3..f3d9cff 100644
--- a/section.go
+++ b/section.go
@@ -74,6 +74,12 @@ func (s *Section) SetBody(body string) {
 
 // NewKey creates a new key to given section.
 func (s *Section) NewKey(name, val string) (*Key, error) {
+	return s.setKey(name, val, true)
+}
+
+// setKey creates a new key to given section. It leaves an existing key alone
+// unless overwrite is true.
+func (s *Section) setKey(name, val string, overwrite bool) (*Key, error) {
 	if len(name) == 0 {
 		return nil, errors.New("error creating new key: empty key name")
 	} else if s.f.options.Insensitive || s.f.options.InsensitiveKeys {
@@ -86,6 +92,9 @@ func (s *Section) NewKey(name, val string) (*Key, error) {
 	}
 
 	if inSlice(name, s.keyList) {
+		if !overwrite {
+			return s.keys[name], nil
+		}
 		if s.f.options.AllowShadows {
 			if err := s.keys[name].addShadow(val); err != nil {
 				return nil, err
@@ -178,7 +187,8 @@ func (s *Section) Key(name string) *Key {
 	if err != nil {
 		// It's OK here because the only possible error is empty key name,
 		// but if it's empty, this piece of code won't be executed.
-		key, _ = s.NewKey(name, "")
+		// Somebody else may have created the key in the meantime.
+		key, _ = s.setKey(name, "", false)
 		return key
 	}
 	return key
-- 
2.43.0


From e2989f9da14892d61beb8cc682c2537b7794c92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:44 +0000
Subject: [PATCH 29/45] fix: lenient lists have a zero value for numbers that
 are out of range

---
 key.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/key.go b/key.go
index 052a890..2909e6e 100644
--- a/key.go
+++ b/key.go
@@ -18,6 +18,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -860,6 +861,10 @@ func (k *Key) doParse(strs []string, addInvalid, returnOnInvalid bool, parser Pa
 		if err != nil && returnOnInvalid {
 			return nil, err
 		}
+		if err != nil {
+			// Do not take the nearest value for one that is out of range.
+			val = reflect.Zero(reflect.TypeOf(val)).Interface()
+		}
 		if err == nil || addInvalid {
 			vals = append(vals, val)
 		}
-- 
2.43.0


From a40763615aa18bb155efdd3b12125c5bc9506362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:46 +0000
Subject: [PATCH 30/45] fix: candidate and range methods return the default if
 the value is invalid

---
 key.go | 50 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/key.go b/key.go
index 2909e6e..234c840 100644
--- a/key.go
+++ b/key.go
@@ -406,7 +406,10 @@ func (k *Key) In(defaultVal string, candidates []string) string {
 // InFloat64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -418,7 +421,10 @@ func (k *Key) InFloat64(defaultVal float64, candidates []float64) float64 {
 // InInt always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt(defaultVal int, candidates []int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -430,7 +436,10 @@ func (k *Key) InInt(defaultVal int, candidates []int) int {
 // InInt64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -442,7 +451,10 @@ func (k *Key) InInt64(defaultVal int64, candidates []int64) int64 {
 // InUint always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
-	val := k.MustUint()
+	val, err := k.Uint()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -454,7 +466,10 @@ func (k *Key) InUint(defaultVal uint, candidates []uint) uint {
 // InUint64 always returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
-	val := k.MustUint64()
+	val, err := k.Uint64()
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -466,7 +481,10 @@ func (k *Key) InUint64(defaultVal uint64, candidates []uint64) uint64 {
 // InTimeFormat always parses with given format and returns value without error,
 // it returns default value if error occurs or doesn't fit into candidates.
 func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	for _, cand := range candidates {
 		if val == cand {
 			return val
@@ -484,7 +502,10 @@ func (k *Key) InTime(defaultVal time.Time, candidates []time.Time) time.Time {
 // RangeFloat64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
-	val := k.MustFloat64()
+	val, err := k.Float64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -494,7 +515,10 @@ func (k *Key) RangeFloat64(defaultVal, min, max float64) float64 {
 // RangeInt checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt(defaultVal, min, max int) int {
-	val := k.MustInt()
+	val, err := k.Int()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -504,7 +528,10 @@ func (k *Key) RangeInt(defaultVal, min, max int) int {
 // RangeInt64 checks if value is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
-	val := k.MustInt64()
+	val, err := k.Int64()
+	if err != nil {
+		return defaultVal
+	}
 	if val < min || val > max {
 		return defaultVal
 	}
@@ -514,7 +541,10 @@ func (k *Key) RangeInt64(defaultVal, min, max int64) int64 {
 // RangeTimeFormat checks if value with given format is in given range inclusively,
 // and returns default value if it's not.
 func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) time.Time {
-	val := k.MustTimeFormat(format)
+	val, err := k.TimeFormat(format)
+	if err != nil {
+		return defaultVal
+	}
 	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
 		return defaultVal
 	}
-- 
2.43.0


From 62869f5916b63778428839bc053a8537366d8bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:15 +0000
Subject: [PATCH 31/45] fix: key-value delimiters may be non-ASCII characters

---
 parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index 5a3dc81..dff57be 100644
--- a/parser.go
+++ b/parser.go
@@ -23,6 +23,7 @@ import (
 	"strconv"
 	"strings"
 	"unicode"
+	"unicode/utf8"
 )
 
 const minReaderBufferSize = 4096
@@ -156,8 +157,8 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		if i < 0 {
 			return "", -1, ErrDelimiterNotFound{line}
 		}
-		endIdx = pos + i
-		return strings.TrimSpace(line[startIdx:pos]), endIdx + startIdx + 1, nil
+		endIdx = pos + startIdx + i
+		return strings.TrimSpace(line[startIdx:pos]), endIdx + delimiterLen(line[endIdx:]), nil
 	}
 
 	endIdx = strings.IndexAny(line, delimiters)
@@ -168,7 +169,13 @@ func readKeyName(delimiters string, in []byte) (string, int, error) {
 		return "", -1, ErrEmptyKeyName{line}
 	}
 
-	return strings.TrimSpace(line[0:endIdx]), endIdx + 1, nil
+	return strings.TrimSpace(line[0:endIdx]), endIdx + delimiterLen(line[endIdx:]), nil
+}
+
+// delimiterLen returns the number of bytes of the delimiter the text starts with.
+func delimiterLen(in string) int {
+	_, size := utf8.DecodeRuneInString(in)
+	return size
 }
 
 func (p *parser) readMultilines(line, val, valQuote string) (string, error) {
-- 
2.43.0


From 0f610d09fddeba07f6295a47f660ad032c4288e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:32 +0000
Subject: [PATCH 32/45] fix: a value that is a triple double quote is saved in
 backquotes

---
 file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 52335e7..80f042f 100644
--- a/file.go
+++ b/file.go
@@ -351,7 +351,7 @@ func (f *File) needsBackquotes(val string) bool {
 		return true
 	case !f.options.IgnoreContinuation && strings.HasSuffix(val, `\`):
 		return true
-	case len(val) > 3 && strings.HasPrefix(val, `"""`):
+	case strings.HasPrefix(val, `"""`):
 		return true
 	case f.options.UnescapeValueDoubleQuotes && strings.HasPrefix(val, `"`):
 		return true
-- 
2.43.0


From 54dea50f61ba0cf9646ad237f32c1581b990c244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:13 +0000
Subject: [PATCH 33/45] fix: reflecting a slice of structs as a key is an
 error, not a panic

---
 struct.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/struct.go b/struct.go
index aca21b2..2d46955 100644
--- a/struct.go
+++ b/struct.go
@@ -491,6 +491,9 @@ func reflectSliceWithProperType(key *Key, field reflect.Value, delim string, all
 		return nil
 	}
 	sliceOf := field.Type().Elem().Kind()
+	if sliceOf == reflectTime && field.Type().Elem() != timeType {
+		return fmt.Errorf("unsupported type '[]%s'", field.Type().Elem())
+	}
 
 	if allowShadow && key.s.f.options.AllowShadows {
 		var keyWithShadows *Key
-- 
2.43.0


From f029e5e23b7474e99c60c989ffd1dc0e85849f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:29 +0000
Subject: [PATCH 34/45] fix: splitting a value took time quadratic in its
 length

---
 key.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/key.go b/key.go
index 234c840..f0ff88e 100644
--- a/key.go
+++ b/key.go
@@ -565,6 +565,14 @@ func (k *Key) Strings(delim string) []string {
 	}
 
 	runes := []rune(str)
+	// The rest of a long value is not converted for every character of it.
+	startsWithDelim := func(idx int) bool {
+		end := idx + len(delim)
+		if end > len(runes) {
+			end = len(runes)
+		}
+		return strings.HasPrefix(string(runes[idx:end]), delim)
+	}
 	vals := make([]string, 0, 2)
 	var buf bytes.Buffer
 	escape := false
@@ -572,14 +580,14 @@ func (k *Key) Strings(delim string) []string {
 	for {
 		if escape {
 			escape = false
-			if runes[idx] != '\\' && !strings.HasPrefix(string(runes[idx:]), delim) {
+			if runes[idx] != '\\' && !startsWithDelim(idx) {
 				buf.WriteRune('\\')
 			}
 			buf.WriteRune(runes[idx])
 		} else {
 			if runes[idx] == '\\' {
 				escape = true
-			} else if strings.HasPrefix(string(runes[idx:]), delim) {
+			} else if startsWithDelim(idx) {
 				idx += utf8.RuneCountInString(delim) - 1
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
-- 
2.43.0


From 2dfd04f38fc1635eacfe3bc427786ff8a3cb6444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 35/45] fix: candidate and range times compare as instants

---
 key.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/key.go b/key.go
index f0ff88e..6e7099c 100644
--- a/key.go
+++ b/key.go
@@ -486,7 +486,7 @@ func (k *Key) InTimeFormat(format string, defaultVal time.Time, candidates []tim
 		return defaultVal
 	}
 	for _, cand := range candidates {
-		if val == cand {
+		if val.Equal(cand) {
 			return val
 		}
 	}
@@ -545,7 +545,7 @@ func (k *Key) RangeTimeFormat(format string, defaultVal, min, max time.Time) tim
 	if err != nil {
 		return defaultVal
 	}
-	if val.Unix() < min.Unix() || val.Unix() > max.Unix() {
+	if val.Before(min) || val.After(max) {
 		return defaultVal
 	}
 	return val
-- 
2.43.0


From 181fad80fa9b8900baf5093f7d7e511dfbd17399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:21 +0000
Subject: [PATCH 36/45] fix: take the lock when marking new boolean keys and
 raw sections

---
 file.go    | 4 ++++
 section.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/file.go b/file.go
index 80f042f..14f94b1 100644
--- a/file.go
+++ b/file.go
@@ -117,6 +117,10 @@ func (f *File) NewRawSection(name, body string) (*Section, error) {
 		return nil, err
 	}
 
+	if f.BlockMode {
+		f.lock.Lock()
+		defer f.lock.Unlock()
+	}
 	section.isRawSection = true
 	section.rawBody = body
 	return section, nil
diff --git a/section.go b/section.go
index f3d9cff..d81bdf2 100644
--- a/section.go
+++ b/section.go
@@ -119,6 +119,10 @@ func (s *Section) NewBooleanKey(name string) (*Key, error) {
 		return nil, err
 	}
 
+	if s.f.BlockMode {
+		s.f.lock.Lock()
+		defer s.f.lock.Unlock()
+	}
 	key.isBooleanType = true
 	return key, nil
 }
-- 
2.43.0


From d7439d4ed855447fe6271fa810d7fac8625bc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:57 +0000
Subject: [PATCH 37/45] fix: keep an escaped delimiter of several characters
 whole when splitting

---
 key.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/key.go b/key.go
index 6e7099c..ce82ff2 100644
--- a/key.go
+++ b/key.go
@@ -580,10 +580,16 @@ func (k *Key) Strings(delim string) []string {
 	for {
 		if escape {
 			escape = false
-			if runes[idx] != '\\' && !startsWithDelim(idx) {
-				buf.WriteRune('\\')
+			if startsWithDelim(idx) {
+				// The whole delimiter is escaped, not only its first character.
+				idx += utf8.RuneCountInString(delim) - 1
+				buf.WriteString(delim)
+			} else {
+				if runes[idx] != '\\' {
+					buf.WriteRune('\\')
+				}
+				buf.WriteRune(runes[idx])
 			}
-			buf.WriteRune(runes[idx])
 		} else {
 			if runes[idx] == '\\' {
 				escape = true
-- 
2.43.0


From 4dd5575df44c4276b2efa2f0816466f8dc1cee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:18 +0000
Subject: [PATCH 38/45] fix: Must methods without a default return zero for a
 value out of range

---
 key.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/key.go b/key.go
index ce82ff2..7597c53 100644
--- a/key.go
+++ b/key.go
@@ -316,6 +316,9 @@ func (k *Key) MustFloat64(defaultVal ...float64) float64 {
 		k.SetValue(strconv.FormatFloat(defaultVal[0], 'f', -1, 64))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0 // Parsing may have left the closest value in range.
+	}
 	return val
 }
 
@@ -327,6 +330,9 @@ func (k *Key) MustInt(defaultVal ...int) int {
 		k.SetValue(strconv.FormatInt(int64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0 // Parsing may have left the closest value in range.
+	}
 	return val
 }
 
@@ -338,6 +344,9 @@ func (k *Key) MustInt64(defaultVal ...int64) int64 {
 		k.SetValue(strconv.FormatInt(defaultVal[0], 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0 // Parsing may have left the closest value in range.
+	}
 	return val
 }
 
@@ -349,6 +358,9 @@ func (k *Key) MustUint(defaultVal ...uint) uint {
 		k.SetValue(strconv.FormatUint(uint64(defaultVal[0]), 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0 // Parsing may have left the closest value in range.
+	}
 	return val
 }
 
@@ -360,6 +372,9 @@ func (k *Key) MustUint64(defaultVal ...uint64) uint64 {
 		k.SetValue(strconv.FormatUint(defaultVal[0], 10))
 		return defaultVal[0]
 	}
+	if err != nil {
+		return 0 // Parsing may have left the closest value in range.
+	}
 	return val
 }
 
-- 
2.43.0


From 9de70fdae2d8f255ebd9238ff0a23dc971976869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:09 +0000
Subject: [PATCH 39/45] fix: mapping and reflecting slices of other types as
 sections, or of nil pointers, is no panic

---
 struct.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/struct.go b/struct.go
index 2d46955..6b884d4 100644
--- a/struct.go
+++ b/struct.go
@@ -295,6 +295,9 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 		val = val.Elem()
 	}
 	typ := val.Type()
+	if typ.Kind() != reflect.Struct {
+		return fmt.Errorf("cannot map a section to type %q", typ)
+	}
 
 	for i := 0; i < typ.NumField(); i++ {
 		field := val.Field(i)
@@ -609,9 +612,15 @@ type StructReflector interface {
 
 func (s *Section) reflectFrom(val reflect.Value) error {
 	if val.Kind() == reflect.Ptr {
+		if val.IsNil() {
+			return nil // Nothing to write
+		}
 		val = val.Elem()
 	}
 	typ := val.Type()
+	if typ.Kind() != reflect.Struct {
+		return fmt.Errorf("cannot reflect a section from type %q", typ)
+	}
 
 	for i := 0; i < typ.NumField(); i++ {
 		if !val.Field(i).CanInterface() {
-- 
2.43.0


From c981430a4089e1c6d68984b58a72e7c94f6c1306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:07 +0000
Subject: [PATCH 40/45] fix: a section named like a time field does not hide
 the field's key

---
 struct.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/struct.go b/struct.go
index 6b884d4..1d31260 100644
--- a/struct.go
+++ b/struct.go
@@ -314,8 +314,8 @@ func (s *Section) mapToField(val reflect.Value, isStrict bool, sectionIndex int,
 			continue
 		}
 
-		isStruct := tpField.Type.Kind() == reflect.Struct
-		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct
+		isStruct := tpField.Type.Kind() == reflect.Struct && tpField.Type != timeType
+		isStructPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Type.Elem().Kind() == reflect.Struct && tpField.Type.Elem() != timeType
 		isAnonymousPtr := tpField.Type.Kind() == reflect.Ptr && tpField.Anonymous
 		if isAnonymousPtr && field.IsNil() {
 			field.Set(reflect.New(tpField.Type.Elem()))
-- 
2.43.0


From d139190ecb67ecc410c0c7f9d1b35a33fec15b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 41/45] fix: an inline comment starts at the first comment
 symbol of either kind that follows a space

---
 parser.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/parser.go b/parser.go
index dff57be..f11d502 100644
--- a/parser.go
+++ b/parser.go
@@ -280,10 +280,9 @@ func (p *parser) readValue(in []byte) (string, error) {
 		var i int
 		if p.options.SpaceBeforeInlineComment {
 			i = strings.Index(line, " #")
-			if i == -1 {
-				i = strings.Index(line, " ;")
+			if j := strings.Index(line, " ;"); i == -1 || (j > -1 && j < i) {
+				i = j
 			}
-
 		} else {
 			i = strings.IndexAny(line, "#;")
 		}
-- 
2.43.0


From fdbbe5e3ff76f09a344c07d1316f2ff055d12029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:36 +0000
Subject: [PATCH 42/45] fix: saving a boolean key keeps the other values
 assigned to it

---
 file.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/file.go b/file.go
index 14f94b1..68d8494 100644
--- a/file.go
+++ b/file.go
@@ -481,13 +481,14 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				kname = `"""` + kname + `"""`
 			}
 
-			writeKeyValue := func(val string) (bool, error) {
+			writeKeyValue := func(val string, isLast bool) (bool, error) {
 				if _, err := buf.WriteString(kname); err != nil {
 					return false, err
 				}
 
-				// A boolean key may have been given another value since it was created.
-				if key.isBooleanType && val == "true" {
+				// A boolean key may have been given another value since it was created,
+				// or have had others before.
+				if key.isBooleanType && val == "true" && isLast {
 					buf.WriteString(LineBreak)
 					return true, nil
 				}
@@ -513,13 +514,13 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 
 			shadows := key.ValueWithShadows()
 			if len(shadows) == 0 {
-				if _, err := writeKeyValue(""); err != nil {
+				if _, err := writeKeyValue("", true); err != nil {
 					return nil, err
 				}
 			}
 
-			for _, val := range shadows {
-				exitLoop, err := writeKeyValue(val)
+			for i, val := range shadows {
+				exitLoop, err := writeKeyValue(val, i == len(shadows)-1)
 				if err != nil {
 					return nil, err
 				} else if exitLoop {
-- 
2.43.0


From d5fd267160ea7f5b0908d973297d5d03372e26ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:22 +0000
Subject: [PATCH 43/45] fix: with CR LF as the line break, every line of a
 comment is saved as a comment line

---
 file.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/file.go b/file.go
index 68d8494..208761f 100644
--- a/file.go
+++ b/file.go
@@ -368,6 +368,11 @@ func (f *File) needsBackquotes(val string) bool {
 	return false
 }
 
+// splitLines splits text at line breaks of either kind.
+func splitLines(s string) []string {
+	return strings.Split(strings.ReplaceAll(s, LineBreak, "\n"), "\n")
+}
+
 func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 	equalSign := DefaultFormatLeft + f.options.KeyValueDelimiterOnWrite + DefaultFormatRight
 
@@ -382,7 +387,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 		sec := f.SectionWithIndex(sname, f.sectionIndexes[i])
 		if len(sec.Comment) > 0 {
 			// Support multiline comments
-			lines := strings.Split(sec.Comment, LineBreak)
+			lines := splitLines(sec.Comment)
 			for i := range lines {
 				if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 					lines[i] = "; " + lines[i]
@@ -454,7 +459,7 @@ func (f *File) writeToBuffer(indent string) (*bytes.Buffer, error) {
 				}
 
 				// Support multiline comments
-				lines := strings.Split(key.Comment, LineBreak)
+				lines := splitLines(key.Comment)
 				for i := range lines {
 					if !strings.HasPrefix(lines[i], "#") && !strings.HasPrefix(lines[i], ";") {
 						lines[i] = "; " + strings.TrimSpace(lines[i])
-- 
2.43.0


From 738384a289bef004607f24fb1df37eefd4210257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:27 +0000
Subject: [PATCH 44/45] fix: splitting a value at delimiters keeps bytes that
 are not valid UTF-8

---
 key.go | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/key.go b/key.go
index 7597c53..5c8f673 100644
--- a/key.go
+++ b/key.go
@@ -579,45 +579,38 @@ func (k *Key) Strings(delim string) []string {
 		return []string{}
 	}
 
-	runes := []rune(str)
-	// The rest of a long value is not converted for every character of it.
-	startsWithDelim := func(idx int) bool {
-		end := idx + len(delim)
-		if end > len(runes) {
-			end = len(runes)
-		}
-		return strings.HasPrefix(string(runes[idx:end]), delim)
-	}
 	vals := make([]string, 0, 2)
 	var buf bytes.Buffer
 	escape := false
 	idx := 0
 	for {
+		// Bytes that are not valid UTF-8 are characters of their own and kept as they are.
+		_, size := utf8.DecodeRuneInString(str[idx:])
 		if escape {
 			escape = false
-			if startsWithDelim(idx) {
+			if strings.HasPrefix(str[idx:], delim) {
 				// The whole delimiter is escaped, not only its first character.
-				idx += utf8.RuneCountInString(delim) - 1
+				size = len(delim)
 				buf.WriteString(delim)
 			} else {
-				if runes[idx] != '\\' {
+				if str[idx] != '\\' {
 					buf.WriteRune('\\')
 				}
-				buf.WriteRune(runes[idx])
+				buf.WriteString(str[idx : idx+size])
 			}
 		} else {
-			if runes[idx] == '\\' {
+			if str[idx] == '\\' {
 				escape = true
-			} else if startsWithDelim(idx) {
-				idx += utf8.RuneCountInString(delim) - 1
+			} else if strings.HasPrefix(str[idx:], delim) {
+				size = len(delim)
 				vals = append(vals, strings.TrimSpace(buf.String()))
 				buf.Reset()
 			} else {
-				buf.WriteRune(runes[idx])
+				buf.WriteString(str[idx : idx+size])
 			}
 		}
-		idx++
-		if idx == len(runes) {
+		idx += size
+		if idx == len(str) {
 			break
 		}
 	}
-- 
2.43.0


From e2613f4d7ef58e651821ee2af85319b603f82247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:30 +0000
Subject: [PATCH 45/45] fix: a negative index names no section

---
 file.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/file.go b/file.go
index 208761f..280d5e2 100644
--- a/file.go
+++ b/file.go
@@ -193,7 +193,7 @@ func (f *File) Section(name string) *Section {
 // SectionWithIndex assumes named section exists and returns a new section when not.
 func (f *File) SectionWithIndex(name string, index int) *Section {
 	secs, err := f.SectionsByName(name)
-	if err != nil || len(secs) <= index {
+	if err != nil || index < 0 || len(secs) <= index {
 		// NOTE: It's OK here because the only possible error is empty section name,
 		// but if it's empty, this piece of code won't be executed.
 		newSec, _ := f.NewSection(name)
@@ -255,6 +255,11 @@ func (f *File) DeleteSectionWithIndex(name string, index int) error {
 		return fmt.Errorf("delete section with non-zero index is only allowed when non-unique sections is enabled")
 	}
 
+	// No section has a negative index.
+	if index < 0 {
+		return nil
+	}
+
 	if len(name) == 0 {
 		name = DefaultSection
 	}
-- 
2.43.0

