From 0cfd7f3ea7d938ec42619a67116cbb0c8e030837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:20 +0000
Subject: [PATCH 01/27] fix: Parse must not corrupt non-ASCII text

Each byte of the document was widened to a rune and re-encoded as UTF-8, so
every multi-byte character in a key or a string came back mangled.
---
 json/JSON.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 475ee08..358cbe1 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -161,11 +161,10 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		i := *index
 		previous_value := ""
 		if *index > 0 {
-			previous_value = string(json_string[i-1])
+			previous_value = json_string[i-1:i]
 		}
-		value := string(json_string[i])
-		rune_values := []rune(value)
-		rune_value := rune_values[0]
+		value := json_string[i:i+1]
+		rune_value := json_string[i]
 
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
-- 
2.43.0


From 66098f8221e719716997c272f00ff26b4979808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:54 +0000
Subject: [PATCH 02/27] fix: Parse must reject content after the root map
 instead of panicking

Once the root was closed the parser kept popping its (empty) stack: {}} and
{"a":1}} panicked with a slice bound out of range, and a second root map
was silently ignored.
---
 json/JSON.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 358cbe1..4a49f77 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -166,6 +166,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		value := json_string[i:i+1]
 		rune_value := json_string[i]
 
+		if parent_map != nil && len(*list) == 0 {
+			errors = append(errors, fmt.Errorf("error: unexpected content after the end of the root map at position: %d", i))
+			return nil, errors
+		}
+
 		if !parsing_string {
 			if value == "\"" && previous_value != "\\" {
 				parsing_string = true
-- 
2.43.0


From ecfab8edc12e4e8ccb5f7869af0ed2776ec82684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:56 +0000
Subject: [PATCH 03/27] fix: Parse must reject a } that closes an array and a ]
 that closes a map

Only the totals of the brackets were compared, so crossed brackets such as
{"a":[{"b":1]}} were accepted.
---
 json/JSON.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 4a49f77..e59afae 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -341,6 +341,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "}" {
+				if !((*list)[len(*list)-1]).IsMap() {
+					errors = append(errors, fmt.Errorf("error: unexpected } inside an array at position: %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 				if parse_errors != nil {
 					errors = append(errors, parse_errors...)
@@ -396,6 +401,11 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else if value == "]" {
+				if !((*list)[len(*list)-1]).IsArray() {
+					errors = append(errors, fmt.Errorf("error: unexpected ] inside a map at position: %d", i))
+					return nil, errors
+				}
+
 				parse_errors := parseJSONValue(temp_key_r, temp_value_r, list)
 
 				if parse_errors != nil {
-- 
2.43.0


From af439451c1900210eb5d123b9c98ca26849e29ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:58 +0000
Subject: [PATCH 04/27] fix: Parse must reject garbage where a key or a colon
 is expected

Anything before the next quote or colon was skipped, so {x"a"y:1},
{"a":"x"y} and even {"a"} were accepted.
---
 json/JSON.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index e59afae..657db34 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -139,6 +139,18 @@ func unquote_key_value(key string) (string, []error) {
 	return key, nil
 }
 
+// isIgnoredBetweenTokens reports whether value may appear around keys: white
+// space, a backslash or the literal escapes \n, \r and \t.
+func isIgnoredBetweenTokens(value string, previous_value string) bool {
+	switch value {
+	case " ", "\n", "\r", "\t", "\\":
+		return true
+	case "n", "r", "t":
+		return previous_value == "\\"
+	}
+	return false
+}
+
 func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map) (*Map, []error) {
 	var errors []error
 	array_list := [](*Value){}
@@ -275,6 +287,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			} else if value == "\"" && previous_value != "\\" {
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
+			} else if value != "," && !isIgnoredBetweenTokens(value, previous_value) {
+				errors = append(errors, fmt.Errorf("error: unexpected %q where a key was expected at position: %d", value, i))
+				return nil, errors
 			}
 			*index++
 			continue
@@ -292,6 +307,9 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		if current_mode == mode_looking_for_key_name_column {
 			if string(value) == ":" {
 				current_mode = mode_looking_for_next_value_or_end
+			} else if !isIgnoredBetweenTokens(value, previous_value) {
+				errors = append(errors, fmt.Errorf("error: unexpected %q where a : was expected at position: %d", value, i))
+				return nil, errors
 			}
 			*index++
 			continue
-- 
2.43.0


From e4eafb7c26b8d7dd3b44aaaf83ef34ababcab76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:45 +0000
Subject: [PATCH 05/27] fix: Parse must reject missing and surplus commas and
 values

---
 json/JSON.go | 50 +++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index 657db34..95d97a6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -165,6 +165,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	var temp_key_r string
 	var temp_value_r string
 	parsing_string := false
+	value_complete := false
+	after_comma := false
 	temp_mode := cloneString(mode)
 	current_mode := *temp_mode
 	var parent_map *Map = nil
@@ -242,6 +244,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 					temp_key_r = ""
 					temp_value_r = ""
+					value_complete = true
+					after_comma = false
 
 					if len(*list) >= 1 {
 						if ((*list)[len(*list)-1]).IsMap() {
@@ -273,8 +277,15 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 		if current_mode == mode_looking_for_keys {
 			if value == "}" {
+				if after_comma {
+					errors = append(errors, fmt.Errorf("error: unexpected } after a comma at position: %d", i))
+					return nil, errors
+				}
+
 				temp_key_r = ""
 				temp_value_r = ""
+				value_complete = true
+				after_comma = false
 
 				*list = (*list)[:len(*list)-1]
 				if len(*list) >= 1 {
@@ -285,9 +296,18 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 					}
 				}
 			} else if value == "\"" && previous_value != "\\" {
+				if value_complete {
+					errors = append(errors, fmt.Errorf("error: missing comma before key at position: %d", i))
+					return nil, errors
+				}
+
+				after_comma = false
 				current_mode = mode_looking_for_key_name
 				temp_key_r += value
-			} else if value != "," && !isIgnoredBetweenTokens(value, previous_value) {
+			} else if value == "," && value_complete {
+				value_complete = false
+				after_comma = true
+			} else if !isIgnoredBetweenTokens(value, previous_value) {
 				errors = append(errors, fmt.Errorf("error: unexpected %q where a key was expected at position: %d", value, i))
 				return nil, errors
 			}
@@ -315,7 +335,19 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			continue
 		}
 
+		value_missing := !value_complete && strings.TrimSpace(temp_value_r) == ""
+
 		if !parsing_string {
+			if (value == "{" || value == "[") && !value_missing {
+				errors = append(errors, fmt.Errorf("error: missing comma before %s at position: %d", value, i))
+				return nil, errors
+			}
+
+			if value_missing && (value == "," || value == "}" || (value == "]" && after_comma)) {
+				errors = append(errors, fmt.Errorf("error: missing value before %s at position: %d", value, i))
+				return nil, errors
+			}
+
 			if value == "{" {
 				new_map := NewMapValue()
 				new_map_value := NewValue(new_map)
@@ -349,6 +381,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 				temp_key_r = ""
 				temp_value_r = ""
+				after_comma = false
 
 				*list = append(*list, new_map_value)
 				if ((*list)[len(*list)-1]).IsMap() {
@@ -371,6 +404,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 				temp_key_r = ""
 				temp_value_r = ""
+				value_complete = true
+				after_comma = false
 
 				*list = (*list)[:len(*list)-1]
 				if len(*list) >= 1 {
@@ -409,6 +444,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 				temp_key_r = ""
 				temp_value_r = ""
+				after_comma = false
 
 				*list = append(*list, new_array_value)
 				if ((*list)[len(*list)-1]).IsMap() {
@@ -432,6 +468,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 				temp_key_r = ""
 				temp_value_r = ""
+				value_complete = true
+				after_comma = false
 
 				*list = (*list)[:len(*list)-1]
 				if len(*list) >= 1 {
@@ -452,6 +490,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 
 				temp_key_r = ""
 				temp_value_r = ""
+				value_complete = false
+				after_comma = true
 
 				if len(*list) >= 1 {
 					if ((*list)[len(*list)-1]).IsMap() {
@@ -463,9 +503,17 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				*index++
 				continue
 			} else {
+				if value_complete && !isIgnoredBetweenTokens(value, previous_value) {
+					errors = append(errors, fmt.Errorf("error: missing comma before %q at position: %d", value, i))
+					return nil, errors
+				}
 				temp_value_r += value
 			}
 		} else {
+			if value == "\"" && previous_value != "\\" && !value_missing {
+				errors = append(errors, fmt.Errorf("error: missing comma before string at position: %d", i))
+				return nil, errors
+			}
 			temp_value_r += value
 		}
 		*index++
-- 
2.43.0


From 86ca230937da7fbaf84390bf3755e0b93ef24721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:24 +0000
Subject: [PATCH 06/27] fix: Parse must reject white space inside numbers and
 literals

---
 json/JSON.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 95d97a6..ebfee3c 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -583,11 +583,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.ReplaceAll(string_value, "\n", "")
-		string_value = strings.ReplaceAll(string_value, "\t", "")
-		string_value = strings.ReplaceAll(string_value, " ", "")
-		string_value = strings.ReplaceAll(string_value, "\r", "")
-		string_value = strings.ReplaceAll(string_value, "\\", "")
+		string_value = strings.Trim(string_value, " \n\t\r\\")
 
 		if string_value == "true" {
 			data_type = "bool"
-- 
2.43.0


From 2cc33a5cb23c1fd551cbacfe8585c8a770999555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:17 +0000
Subject: [PATCH 07/27] fix: JSON escape sequences must be decoded by Parse and
 produced by ToJSONString

---
 json/JSON.go | 134 ++++++++++++++++++++++++++++++++++++++++++++-------
 json/Map.go  |   8 +--
 2 files changed, 117 insertions(+), 25 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index ebfee3c..b22b9a9 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -7,6 +7,8 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf16"
+	"unicode/utf8"
 
 	common "github.com/matehaxor03/holistic_common/common"
 )
@@ -124,10 +126,106 @@ func Parse(s string) (*Map, []error) {
 	return parent_map, nil
 }
 
+// unescapeString replaces the JSON escape sequences in value with the
+// characters they denote; any other use of a backslash is kept as it is.
+func unescapeString(value string) string {
+	if !strings.Contains(value, "\\") {
+		return value
+	}
+
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		if value[i] != '\\' || i+1 == len(value) {
+			result.WriteByte(value[i])
+			continue
+		}
+
+		i++
+		switch value[i] {
+		case '"', '\\', '/':
+			result.WriteByte(value[i])
+		case 'b':
+			result.WriteByte('\b')
+		case 'f':
+			result.WriteByte('\f')
+		case 'n':
+			result.WriteByte('\n')
+		case 'r':
+			result.WriteByte('\r')
+		case 't':
+			result.WriteByte('\t')
+		case 'u':
+			code, found := unescapeCodeUnit(value, i)
+			if !found {
+				result.WriteString("\\u")
+				continue
+			}
+			i += 4
+			if utf16.IsSurrogate(code) {
+				low, low_found := rune(0), false
+				if i+2 < len(value) && value[i+1] == '\\' && value[i+2] == 'u' {
+					low, low_found = unescapeCodeUnit(value, i+2)
+				}
+				code = utf16.DecodeRune(code, low)
+				if low_found && code != utf8.RuneError {
+					i += 6
+				}
+			}
+			result.WriteRune(code)
+		default:
+			result.WriteByte('\\')
+			result.WriteByte(value[i])
+		}
+	}
+	return result.String()
+}
+
+// unescapeCodeUnit decodes the four hexadecimal digits after the u at index.
+func unescapeCodeUnit(value string, index int) (rune, bool) {
+	if index+4 >= len(value) {
+		return 0, false
+	}
+	code, code_error := strconv.ParseUint(value[index+1:index+5], 16, 32)
+	if code_error != nil {
+		return 0, false
+	}
+	return rune(code), true
+}
+
+// escapeString escapes the characters of value that can't appear as they are
+// between the quotes of a JSON string.
+func escapeString(value string) string {
+	var result strings.Builder
+	for i := 0; i < len(value); i++ {
+		switch c := value[i]; c {
+		case '"', '\\':
+			result.WriteByte('\\')
+			result.WriteByte(c)
+		case '\b':
+			result.WriteString("\\b")
+		case '\f':
+			result.WriteString("\\f")
+		case '\n':
+			result.WriteString("\\n")
+		case '\r':
+			result.WriteString("\\r")
+		case '\t':
+			result.WriteString("\\t")
+		default:
+			if c < 0x20 {
+				result.WriteString(fmt.Sprintf("\\u%04x", c))
+			} else {
+				result.WriteByte(c)
+			}
+		}
+	}
+	return result.String()
+}
+
 func unquote_key_value(key string) (string, []error) {
 	var errors []error
 	if strings.HasPrefix(key, "\"") && strings.HasSuffix(key, "\"") {
-		key = (key)[1:(len(key) - 1)]
+		key = unescapeString((key)[1:(len(key) - 1)])
 	} else {
 		errors = append(errors, fmt.Errorf("error: key does not start with  \" or end with \""))
 	}
@@ -165,6 +263,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 	var temp_key_r string
 	var temp_value_r string
 	parsing_string := false
+	next_value_escaped := false
 	value_complete := false
 	after_comma := false
 	temp_mode := cloneString(mode)
@@ -179,6 +278,8 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 		value := json_string[i:i+1]
 		rune_value := json_string[i]
+		value_escaped := next_value_escaped
+		next_value_escaped = parsing_string && value == "\\" && !value_escaped
 
 		if parent_map != nil && len(*list) == 0 {
 			errors = append(errors, fmt.Errorf("error: unexpected content after the end of the root map at position: %d", i))
@@ -224,7 +325,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 				}
 			}
 		} else {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !value_escaped {
 				parsing_string = false
 				closing_quote, closing_quote_errors := metrics.GetInt("closing_quote")
 				if closing_quote_errors != nil {
@@ -316,7 +417,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 		}
 
 		if current_mode == mode_looking_for_key_name {
-			if value == "\"" && previous_value != "\\" {
+			if value == "\"" && !value_escaped {
 				current_mode = mode_looking_for_key_name_column
 			}
 			temp_key_r += value
@@ -544,13 +645,10 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	key_value = strings.TrimSpace(key_value)
 	string_value = strings.TrimSpace(string_value)
 
-	key_value = strings.Replace(key_value, "\\\"", "\"", -1)
-	string_value = strings.Replace(string_value, "\\\"", "\"", -1)
-
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
 			dequoted_value := (key_value)[1:(len(key_value) - 1)]
-			key_value = dequoted_value
+			key_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: key does not start with  \" and/or end with \" key: '%s'", key_value))
 		}
@@ -560,7 +658,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
-			string_value = dequoted_value
+			string_value = unescapeString(dequoted_value)
 		} else {
 			errors = append(errors, fmt.Errorf("error: value does not start with  \" and/or end with \" value: '%s'", string_value))
 		}
@@ -870,40 +968,40 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_string := temp_value.(string)
 		clone_string := common.CloneString(&temp_string)
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "*string":
 		clone_string := common.CloneString(temp_value.(*string))
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(*clone_string, "\"", "\\\""))
+		json.WriteString(escapeString(*clone_string))
 		json.WriteString("\"")
 	case "error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value.(error)), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value.(error))))
 		json.WriteString("\"")
 	case "*error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", *(temp_value.(*error))), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", *(temp_value.(*error)))))
 		json.WriteString("\"")
 	case "*url.Error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error()), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", (*(temp_value.(*url.Error))).Error())))
 		json.WriteString("\"")
 	case "exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*exec.ExitError":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "*errors.errorString":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", temp_value), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", temp_value)))
 		json.WriteString("\"")
 	case "bool":
 		if temp_value.(bool) {
@@ -995,7 +1093,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("]")
 	case "func(string, *string, string, string) []error", "func(json.Map) []error", "*func(json.Map) []error", "*func(string) []error", "func(string) []error":
 		json.WriteString("\"")
-		json.WriteString(strings.ReplaceAll(fmt.Sprintf("%s", rep), "\"", "\\\""))
+		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
diff --git a/json/Map.go b/json/Map.go
index 30e06f5..23a0533 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -331,14 +331,8 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		json.WriteString("{")
 		for i := 0; i < length; i++ {
 			key := (temp_keys)[i]
-			key_clone := common.CloneString(&key)
-			escaped_key, escaped_key_error := common.EscapeString(*key_clone, "\"")
-			if escaped_key_error != nil {
-				errors = append(errors, escaped_key_error)
-				return errors
-			}
 			json.WriteString("\"")
-			json.WriteString(escaped_key)
+			json.WriteString(escapeString(key))
 			json.WriteString("\":")
 			string_conversion_errors := ConvertInterfaceValueToJSONStringValue(json, internal_map[key])
 			if string_conversion_errors != nil {
-- 
2.43.0


From b6e929b0d285761d7871fa84a591f5b412105bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:43 +0000
Subject: [PATCH 08/27] fix: Parse must accept exactly the JSON grammar of
 numbers

---
 json/JSON.go | 58 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 38 insertions(+), 20 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index b22b9a9..1b57067 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -126,6 +126,40 @@ func Parse(s string) (*Map, []error) {
 	return parent_map, nil
 }
 
+// isNumber reports whether value is a number as defined by the JSON grammar.
+func isNumber(value string) bool {
+	skipDigits := func() bool {
+		length := len(value)
+		value = strings.TrimLeft(value, "0123456789")
+		return len(value) < length
+	}
+
+	value = strings.TrimPrefix(value, "-")
+	if strings.HasPrefix(value, "0") {
+		value = value[1:]
+	} else if !skipDigits() {
+		return false
+	}
+
+	if strings.HasPrefix(value, ".") {
+		value = value[1:]
+		if !skipDigits() {
+			return false
+		}
+	}
+
+	if strings.HasPrefix(value, "e") || strings.HasPrefix(value, "E") {
+		value = value[1:]
+		if strings.HasPrefix(value, "+") || strings.HasPrefix(value, "-") {
+			value = value[1:]
+		}
+		if !skipDigits() {
+			return false
+		}
+	}
+	return value == ""
+}
+
 // unescapeString replaces the JSON escape sequences in value with the
 // characters they denote; any other use of a backslash is kept as it is.
 func unescapeString(value string) string {
@@ -696,28 +730,12 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 		} else if string_value == "" {
 			data_type = "empty"
 		} else {
-			var negative_number bool
-			negative_number_count := strings.Count(string_value, "-")
-			if negative_number_count == 1 {
-				negative_number = true
-				if !strings.HasPrefix(string_value, "-") {
-					errors = append(errors, fmt.Errorf("error: negative symbol is not at the start of the number"))
-				}
-			} else if negative_number_count == 0 {
-				negative_number = false
-			} else {
-				errors = append(errors, fmt.Errorf("error: value contained %d negative symbols expected 1", negative_number_count))
+			if !isNumber(string_value) {
+				errors = append(errors, fmt.Errorf("error: value is not a number, true, false or null: %s", string_value))
 			}
 
-			var decimal_number bool
-			decimal_count := strings.Count(string_value, ".")
-			if decimal_count == 1 {
-				decimal_number = true
-			} else if decimal_count == 0 {
-				decimal_number = false
-			} else {
-				errors = append(errors, fmt.Errorf("error: value contained %d decimal points expected 1", decimal_count))
-			}
+			negative_number := strings.HasPrefix(string_value, "-")
+			decimal_number := strings.ContainsAny(string_value, ".eE")
 
 			if len(errors) > 0 {
 				return errors
-- 
2.43.0


From becd5e5db641583909b38e681ce4b4ec42a7a7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:00 +0000
Subject: [PATCH 09/27] fix: Parse must keep the precision of decimals that
 don't fit a float32

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 1b57067..c0186f5 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -751,6 +751,8 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 
 					float32_temp, float32_temp_error := strconv.ParseFloat(string_value, 32)
 					if float32_temp_error != nil {
+					} else if strconv.FormatFloat(float32_temp, 'g', -1, 32) != strconv.FormatFloat(float64_temp, 'g', -1, 64) {
+						// float32 would lose digits
 					} else {
 						data_type = "float32"
 						float32_conv := float32(float32_temp)
-- 
2.43.0


From acc569510b703c9488a8911444498c947a0e8746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 10/27] fix: values must not be treated as null because of how
 they print

---
 json/Array.go |  4 +---
 json/JSON.go  | 35 +++++++++++++++++++++++++++++------
 json/Map.go   |  8 ++++----
 json/Value.go | 48 ++++++++++++++++--------------------------------
 4 files changed, 50 insertions(+), 45 deletions(-)

diff --git a/json/Array.go b/json/Array.go
index c542672..61e83ba 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -97,7 +97,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 	if !common.IsNil(a) {
 		current_type := ""
 		for _, value := range *a {
-			current_type = common.GetType(value)
+			current_type = getType(value)
 			if current_type == "json.Value" {
 				temp_value := ((value).(Value))
 				*values = append(*values, &temp_value)
@@ -440,8 +440,6 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue has errors: %s", fmt.Sprintf("%s", value_errors)))
-			} else if common.IsNil(value) {
-				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
 			}
 		
 			if len(errors) > 0 {
diff --git a/json/JSON.go b/json/JSON.go
index c0186f5..09db3dd 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"net/url"
 	"os/exec"
+	"reflect"
 	"strconv"
 	"strings"
 	"time"
@@ -13,6 +14,28 @@ import (
 	common "github.com/matehaxor03/holistic_common/common"
 )
 
+// isNil reports whether object is nil or holds a nil pointer, map or function.
+func isNil(object interface{}) bool {
+	if object == nil {
+		return true
+	}
+
+	value := reflect.ValueOf(object)
+	switch value.Kind() {
+	case reflect.Ptr, reflect.Map, reflect.Func:
+		return value.IsNil()
+	}
+	return false
+}
+
+// getType returns the name of the type of object or nil for a nil object.
+func getType(object interface{}) string {
+	if isNil(object) {
+		return "nil"
+	}
+	return fmt.Sprintf("%T", object)
+}
+
 func cloneString(value *string) *string {
 	if value == nil {
 		return nil
@@ -967,12 +990,12 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		return errors
 	}
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		json.WriteString("null")
 		return nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -982,7 +1005,7 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		temp_string := temp_value.(string)
@@ -1186,11 +1209,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	var errors []error
 	var result string
 
-	if common.IsNil(value) {
+	if isNil(value) {
 		return "null", nil
 	}
 
-	rep := common.GetType(value)
+	rep := getType(value)
 	var temp_value interface{}
 	if rep == "json.Value" {
 		temp_value = (value.(Value)).GetObject()
@@ -1200,7 +1223,7 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		temp_value = value
 	}
 
-	rep = common.GetType(temp_value)
+	rep = getType(temp_value)
 	switch rep {
 	case "string":
 		result = temp_value.(string)
diff --git a/json/Map.go b/json/Map.go
index 23a0533..1e0427f 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -223,12 +223,12 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		type_of := common.GetType(value)
 		if type_of == "*json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		} else if type_of == "json.Value" {
 			temp_object := value.GetObject()
-			if common.IsNil(temp_object) {
+			if isNil(temp_object) {
 				return true
 			}
 		}
@@ -412,10 +412,10 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 		return cloned, nil
 	}
 
-	if !common.IsNil(m) {
+	if !isNil(m) {
 		current_type := ""
 		for key, value := range *m {
-			current_type = common.GetType(value)
+			current_type = getType(value)
 			if current_type == "json.Value" {
 				temp_value := ((value).(Value))
 				setInternalValue(key, &temp_value)
diff --git a/json/Value.go b/json/Value.go
index 819b5e0..93aed7a 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -382,7 +382,7 @@ func NewValue(v interface{}) (*Value) {
 				return false
 			}
 
-			if !common.IsString(this().GetObject()) {
+			if !this().IsString() {
 				return false
 			}
 		
@@ -442,7 +442,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result (func(string) []error)
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "func(string) []error":
 				result = (this().GetObject()).(func(string) []error)
@@ -466,7 +466,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result []error
 			
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*[]error":
 				result = *(this().GetObject().(*[]error))
@@ -520,7 +520,7 @@ func NewValue(v interface{}) (*Value) {
 			var errors []error
 			var result *Array
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*json.Array":
 				result = this().GetObject().(*Array)
@@ -556,7 +556,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -608,7 +608,8 @@ func NewValue(v interface{}) (*Value) {
 			return common.IsNumber(this().GetObject())
 		},
 		IsString: func() (bool) {
-			return common.IsString(this().GetObject())
+			type_of := this().GetType()
+			return type_of == "string" || type_of == "*string"
 		},
 		IsValueEqualToString: func(s *string) (bool) {
 			this_nil := this().IsNil()
@@ -631,13 +632,7 @@ func NewValue(v interface{}) (*Value) {
 		},
 		IsValueEqualToStringValue: func(s string) (bool) {
 			this_nil := this().IsNil()
-			compare_nil := common.IsNil(s)
-			
-			if this_nil && compare_nil {
-				return true
-			}
-			
-			if this_nil != compare_nil {
+			if this_nil {
 				return false
 			}
 
@@ -649,18 +644,7 @@ func NewValue(v interface{}) (*Value) {
 			return value == s			
 		},
 		IsNil: func() bool {
-			temp_value := this().GetObject()
-			if common.IsNil(temp_value) {
-				return true
-			}
-			
-			return !(common.IsValue(temp_value) ||
-					common.IsNumber(temp_value) || 
-					common.IsBool(temp_value) || 
-					common.IsString(temp_value) || 
-					common.IsArray(temp_value) || 
-					common.IsMap(temp_value) ||
-					common.IsFunc(temp_value))
+			return isNil(this().GetObject())
 		},
 		IsBool: func() bool {
 			return common.IsBool(this().GetObject())
@@ -675,7 +659,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *float64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "float64":
 				value := this().GetObject().(float64)
@@ -889,7 +873,7 @@ func NewValue(v interface{}) (*Value) {
 		
 			var errors []error
 			var result *string
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "string":
 				value := this().GetObject().(string)
@@ -931,7 +915,7 @@ func NewValue(v interface{}) (*Value) {
 			var result *bool
 			var errors []error
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				value := this().GetObject().(bool)
@@ -981,7 +965,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 		
 			var result bool
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "bool":
 				result = this().GetObject().(bool)
@@ -1030,7 +1014,7 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 				case "json.Value":
 					string_value, convert_errors := ConvertInterfaceValueToStringValue(this().GetObject().(Value))
@@ -1220,7 +1204,7 @@ func NewValue(v interface{}) (*Value) {
 			}
 
 			var uint64_value uint64
-			rep := common.GetType(getObject())
+			rep := getType(getObject())
 			switch rep {
 			case "*int64":
 				x := *(this().GetObject().(*int64))
@@ -1384,7 +1368,7 @@ func NewValue(v interface{}) (*Value) {
 			setObject(value)
 		},
 		GetType: func() string {
-			return common.GetType(this().GetObject())
+			return getType(this().GetObject())
 		},
 		IsInteger: func() bool {
 			return common.IsInteger(this().GetObject())
-- 
2.43.0


From eec72d43ee4bf109d2cbeb4deae3d1aac825b7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:11 +0000
Subject: [PATCH 11/27] fix: GetString of a value that is not a string must
 return an error instead of panicking

---
 json/Value.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/json/Value.go b/json/Value.go
index 93aed7a..5dc3103 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -564,7 +564,6 @@ func NewValue(v interface{}) (*Value) {
 			case "*string":
 				result = this().GetObject().(*string)
 			default:
-				panic("debug")
 				errors = append(errors, fmt.Errorf("error Value.GetString: type %s is not supported please implement for attribute", rep))
 			}
 		
-- 
2.43.0


From 687f636453ddccba25b2d326a166a2225dfc5a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:13 +0000
Subject: [PATCH 12/27] fix: integer getters must reject a uint above the int64
 range instead of wrapping

---
 json/Value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 5dc3103..1533a2c 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1107,10 +1107,18 @@ func NewValue(v interface{}) (*Value) {
 					temp_value = int64(x)
 				case "*uint":
 					x := this().GetObject().(*uint)
-					temp_value = int64(*x)
+					if *x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", *x))
+					} else {
+						temp_value = int64(*x)
+					}
 				case "uint":
 					x := this().GetObject().(uint)
-					temp_value = int64(x)
+					if x > 9223372036854775807 {
+						errors = append(errors, fmt.Errorf("%d is greater than 9223372036854775807", x))
+					} else {
+						temp_value = int64(x)
+					}
 				case "*string":
 					value, value_error := strconv.ParseInt(*(this().GetObject().(*string)), 10, 64)
 					if value_error != nil {
-- 
2.43.0


From f680dbab9a997526fdd47254c639f3f52a713bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:15 +0000
Subject: [PATCH 13/27] fix: floats must be written without losing digits

---
 json/JSON.go | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 09db3dd..043ddd3 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -2,6 +2,7 @@ package json
 
 import (
 	"fmt"
+	"math"
 	"net/url"
 	"os/exec"
 	"reflect"
@@ -983,6 +984,24 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	return nil
 }
 
+// formatFloat formats value as the shortest decimal that identifies it among
+// the floats of the given bit size, always with a decimal point.
+func formatFloat(value float64, bit_size int) string {
+	result := strconv.FormatFloat(value, 'f', -1, bit_size)
+	if math.IsNaN(value) || math.IsInf(value, 0) || strings.Contains(result, ".") {
+		return result
+	}
+	return result + ".0"
+}
+
+func writeFloat(json *strings.Builder, value float64, bit_size int) []error {
+	if math.IsNaN(value) || math.IsInf(value, 0) {
+		return []error{fmt.Errorf("error: %f can't be represented in json", value)}
+	}
+	json.WriteString(formatFloat(value, bit_size))
+	return nil
+}
+
 func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interface{}) []error {
 	var errors []error
 	if json == nil {
@@ -1185,13 +1204,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "int":
 		json.WriteString(strconv.FormatInt(int64(temp_value.(int)), 10))
 	case "*float64":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float64))))
+		errors = append(errors, writeFloat(json, *(temp_value.(*float64)), 64)...)
 	case "float64":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float64))))
+		errors = append(errors, writeFloat(json, temp_value.(float64), 64)...)
 	case "*float32":
-		json.WriteString(fmt.Sprintf("%f", *(temp_value.(*float32))))
+		errors = append(errors, writeFloat(json, float64(*(temp_value.(*float32))), 32)...)
 	case "float32":
-		json.WriteString(fmt.Sprintf("%f", (temp_value.(float32))))
+		errors = append(errors, writeFloat(json, float64(temp_value.(float32)), 32)...)
 	case "nil":
 		json.WriteString("null")
 	default:
@@ -1300,13 +1319,13 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "int":
 		result = strconv.FormatInt(int64(temp_value.(int)), 10)
 	case "*float64":
-		result = fmt.Sprintf("%f", *(temp_value.(*float64)))
+		result = formatFloat(*(temp_value.(*float64)), 64)
 	case "float64":
-		result = fmt.Sprintf("%f", (temp_value.(float64)))
+		result = formatFloat(temp_value.(float64), 64)
 	case "*float32":
-		result = fmt.Sprintf("%f", *(temp_value.(*float32)))
+		result = formatFloat(float64(*(temp_value.(*float32))), 32)
 	case "float32":
-		result = fmt.Sprintf("%f", (temp_value.(float32)))
+		result = formatFloat(float64(temp_value.(float32)), 32)
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 8f338dfd7459635f993af37d762ecf8cf166bc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:03 +0000
Subject: [PATCH 14/27] fix: implement the declared getters that were left nil
 and panicked when called

---
 json/Array.go | 113 ++++++++++++++++++++++++++++++++++++++++++++++++++
 json/Map.go   |  40 ++++++++++++++++++
 json/Value.go |  50 ++++++++++++++++++++++
 3 files changed, 203 insertions(+)

diff --git a/json/Array.go b/json/Array.go
index 61e83ba..e118b96 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -178,10 +178,14 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		return cloned, nil
 	}
 
+	var this_array *Array
 	created_array := Array{
 		Clone: func() (*Array, []error) {
 			return clone()
 		},
+		GetArrayValue: func() (Array, []error) {
+			return *this_array, nil
+		},
 		Len: func() int {
 			return getLen()
 		},
@@ -582,6 +586,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfInt: func() (*[](*int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					int_value, int_value_errors := array_value.GetInt()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfUInt8: func() (*[](*uint8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -690,6 +721,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return &result, nil
 		},
+		GetArrayOfUInt: func() (*[](*uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](*uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					result = append(result, nil)			 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUInt()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return &result, nil
+		},
 		GetArrayOfInt8Value: func() ([](int8), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -798,6 +856,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfIntValue: func() ([](int), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](int))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					int_value, int_value_errors := array_value.GetIntValue()
+					if int_value_errors != nil {
+						errors = append(errors, int_value_errors...)
+					} else {
+						result = append(result, int_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfUInt8Value: func() ([]uint8, []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -906,6 +991,33 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 			
 			return result, nil
 		},
+		GetArrayOfUIntValue: func() ([](uint), []error) {
+			array_values := getValues()
+			if common.IsNil(array_values) {
+				return nil, nil
+			}
+		
+			var errors []error
+			var result ([](uint))
+			for _, array_value := range *array_values {
+				if common.IsNil(array_value) {
+					errors = append(errors, fmt.Errorf("array contained a null value")) 
+				} else {
+					uint_value, uint_value_errors := array_value.GetUIntValue()
+					if uint_value_errors != nil {
+						errors = append(errors, uint_value_errors...)
+					} else {
+						result = append(result, uint_value)			 
+					}
+				}
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+			
+			return result, nil
+		},
 		GetArrayOfBool: func() (*[](*bool), []error) {
 			array_values := getValues()
 			if common.IsNil(array_values) {
@@ -1128,6 +1240,7 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				return result, nil
 		},
 	}
+	this_array = &created_array
 	return &created_array
 }
 
diff --git a/json/Map.go b/json/Map.go
index 1e0427f..a86155a 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -645,6 +645,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfInt64()
 		},
+		GetArrayOfInt: func(s string) (*[]*int, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfInt()
+		},
 		GetArrayOfUInt8: func(s string) (*[]*uint8, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -681,6 +690,15 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return array.GetArrayOfUInt64()
 		},
+		GetArrayOfUInt: func(s string) (*[]*uint, []error) {
+			array, array_errors := getArray(s)
+			if array_errors != nil {
+				return nil, array_errors
+			} else if common.IsNil(array) {
+				return nil, nil
+			}
+			return array.GetArrayOfUInt()
+		},
 		GetArrayOfFloat32: func(s string) (*[]*float32, []error) {
 			array, array_errors := getArray(s)
 			if array_errors != nil {
@@ -822,6 +840,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetBool()
 		},
+		GetBoolValue: func(s string) (bool, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetBoolValue value is nil"))
+				return false, errors
+			}
+			return getInternalValue(s).GetBoolValue()
+		},
 		SetBool: func(s string, value *bool) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
@@ -960,6 +986,14 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetUInt64Value()
 		},
+		GetUIntValue: func(s string) (uint, []error) {
+			if isValueNilForMap(s) {
+				var errors []error
+				errors = append(errors, fmt.Errorf("json.Map.GetUIntValue value is nil"))
+				return 0, errors
+			}
+			return getInternalValue(s).GetUIntValue()
+		},
 		GetInt: func(s string) (*int, []error) {
 			if isValueNilForMap(s) {
 				return nil, nil
@@ -1077,6 +1111,12 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			}
 			return getInternalValue(s).GetUInt64()
 		},
+		GetUInt: func(s string) (*uint, []error) {
+			if isValueNilForMap(s) {
+				return nil, nil
+			}
+			return getInternalValue(s).GetUInt()
+		},
 		SetTime: func (s string, value *time.Time) {
 			set_map_value := NewValue(value)
 			setInternalValue(s, set_map_value)
diff --git a/json/Value.go b/json/Value.go
index 1533a2c..b470d8f 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -1812,6 +1812,38 @@ func NewValue(v interface{}) (*Value) {
 		
 			return &result, nil
 		},
+		GetUInt: func() (*uint, []error) {
+			var errors []error
+			var result uint
+			bit_size := strconv.IntSize
+			if bit_size == 32 {
+				temp_value, temp_value_errors := this().GetUInt32()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else if bit_size == 64 {
+				temp_value, temp_value_errors := this().GetUInt64()
+				if temp_value_errors != nil {
+					return nil, temp_value_errors
+				} else if temp_value == nil {
+					return nil, nil
+				}
+		
+				result = uint(*temp_value)
+			} else {
+				errors = append(errors, fmt.Errorf("Value.GetUInt bit size is not supported: %d", bit_size))
+			}
+		
+			if len(errors) > 0 {
+				return nil, errors
+			}
+		
+			return &result, nil
+		},
 		GetIntValue: func() (int, []error) {
 			var errors []error
 			int_value, int_value_errors := this().GetInt()
@@ -1830,6 +1862,24 @@ func NewValue(v interface{}) (*Value) {
 		
 			return result, nil
 		},
+		GetUIntValue: func() (uint, []error) {
+			var errors []error
+			uint_value, uint_value_errors := this().GetUInt()
+			if uint_value_errors != nil {
+				errors = append(errors, uint_value_errors...)
+			} else if uint_value == nil {
+				errors = append(errors, fmt.Errorf("error:  m.GetUInt(s) returned nil"))
+			}
+		
+			if len(errors) > 0 {
+				return 0, errors
+			}
+		
+			uint_conv := uint(*uint_value)
+			result := uint_conv
+		
+			return result, nil
+		},
 		SetObject: func(value interface{}) () {
 			setObject(value)
 		},
-- 
2.43.0


From 018c0796f340483cd7722dcea021cf5bed9dda42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:04 +0000
Subject: [PATCH 15/27] fix: Clone must keep error messages that contain a
 percent sign

---
 json/Value.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index b470d8f..35f8a56 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -202,38 +202,38 @@ func NewValue(v interface{}) (*Value) {
 					cloned_value.SetString(&result)
 				case "error":
 					result := fmt.Sprintf("%s",  temp_object.(error).Error())
-					cloned_value.SetErrorValue(fmt.Errorf(result))
+					cloned_value.SetErrorValue(fmt.Errorf("%s", result))
 				case "[]error": 
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
-						e := fmt.Errorf(fmt.Sprintf("%s", result_array_value.Error()))
+						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "*url.Error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*url.Error))).Error()) 
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "exec.ExitError":
 					result := fmt.Sprintf("%s", temp_object.(exec.ExitError))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*exec.ExitError":
 					result := fmt.Sprintf("%s", *(temp_object.(*exec.ExitError)))
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetErrorValue(cloned_error)
 				case "*errors.errorString":
 					result := fmt.Sprintf("%s", temp_object)
-					cloned_error := fmt.Errorf(result)
+					cloned_error := fmt.Errorf("%s", result)
 					cloned_value.SetError(&cloned_error)
 				case "bool":
 					if temp_object.(bool) {
-- 
2.43.0


From d40057353a060a6c3886051c45ce925e1563343e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:06 +0000
Subject: [PATCH 16/27] fix: Clone and indexed getters of Array must accept nil
 elements instead of panicking

---
 json/Array.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/json/Array.go b/json/Array.go
index e118b96..8391e9b 100644
--- a/json/Array.go
+++ b/json/Array.go
@@ -123,7 +123,9 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 		temp_values := getValues()
 		cloned := NewArray()
 		for _, temp_value := range *temp_values {
-			if temp_value.IsMap() {
+			if temp_value == nil {
+				cloned.AppendNil()
+			} else if temp_value.IsMap() {
 				temp_map, temp_map_errors := temp_value.GetMap()
 				if temp_map_errors != nil {
 					errors = append(errors, temp_map_errors...)
@@ -440,6 +442,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue index is out of range"))
 				return "", errors
 			}
+
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return "", errors
+			}
 		
 			value, value_errors := ((*a)[index]).GetStringValue()
 			if value_errors != nil {
@@ -464,6 +471,11 @@ func NewArrayOfValues(a *[]interface{}) (*Array) {
 				errors = append(errors, fmt.Errorf("Array.GetStringValue index is out of range"))
 				return nil, errors
 			}
+
+			if (*a)[index] == nil {
+				errors = append(errors, fmt.Errorf("Array.GetStringValue value is nil"))
+				return nil, errors
+			}
 		
 			value, value_errors := ((*a)[index]).GetMap()
 			if value_errors != nil {
-- 
2.43.0


From cf63938a208ab5b5d47161298bc6fbe291a0ed9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 17/27] fix: the slice returned by GetKeys must not change when
 the map changes

---
 json/Map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index a86155a..76c0f7d 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -567,7 +567,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return toJSONString(json_payload_builder)
 		},
 		GetKeys: func() ([]string) {
-			return getKeys()
+			return append([]string{}, getKeys()...)
 		},
 		SetArray: func(s string, array *Array) {
 			set_map_value := NewValue(array)
-- 
2.43.0


From e126a33556c4cb4d2e52544120905b331adff115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:09 +0000
Subject: [PATCH 18/27] fix: IsNil must not report every map as nil

---
 json/Map.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index 76c0f7d..af1c8b5 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -449,17 +449,7 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return isValueNilForMap(s)
 		},
 		IsNil: func() bool {			
-			if common.IsNil(internal_map) {
-				return true
-			}
-	
-			return !(common.IsValue(internal_map) ||
-					common.IsNumber(internal_map) || 
-					common.IsBool(internal_map) || 
-					common.IsString(internal_map) || 
-					common.IsArray(internal_map) || 
-					common.IsMap(internal_map) ||
-					common.IsFunc(internal_map))
+			return internal_map == nil
 		},
 		IsBool: func(s string) bool {
 			if isValueNilForMap(s) {
-- 
2.43.0


From 9eb3c1fe3b97211ab91297122aaa517c27584193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:11 +0000
Subject: [PATCH 19/27] fix: ConvertInterfaceValueToStringValue must accept a
 Value that holds null

---
 json/JSON.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 043ddd3..64ae060 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1326,6 +1326,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		result = formatFloat(float64(*(temp_value.(*float32))), 32)
 	case "float32":
 		result = formatFloat(float64(temp_value.(float32)), 32)
+	case "nil":
+		result = "null"
 	case "json.Value":
 		result = fmt.Sprintf("%s", (temp_value.(Value)).GetObject())
 	case "*json.Value":
-- 
2.43.0


From 5a1ee9884e6c99f2bea4460faed745e7dba2fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:12 +0000
Subject: [PATCH 20/27] fix: a time stored with SetTimeValue must be converted
 like one stored with SetTime

---
 json/JSON.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/json/JSON.go b/json/JSON.go
index 64ae060..3af1db3 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1157,6 +1157,10 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 		json.WriteString("\"")
 		json.WriteString(escapeString(fmt.Sprintf("%s", rep)))
 		json.WriteString("\"")
+	case "time.Time":
+		json.WriteString("\"")
+		json.WriteString((temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000"))
+		json.WriteString("\"")
 	case "*time.Time":
 		json.WriteString("\"")
 		json.WriteString((*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000"))
@@ -1274,6 +1278,8 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 		} else {
 			result = "false"
 		}
+	case "time.Time":
+		result = (temp_value.(time.Time)).Format("2006-01-02 15:04:05.000000")
 	case "*time.Time":
 		result = (*(temp_value.(*time.Time))).Format("2006-01-02 15:04:05.000000")
 	case "map[string]map[string][][]string":
-- 
2.43.0


From 814b89288161917ffa5e1ffb3ba1ef20802e1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 21/27] fix: time getters must return an error instead of
 panicking or hiding a missing value

---
 json/Value.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/json/Value.go b/json/Value.go
index 35f8a56..8b43258 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -148,6 +148,14 @@ func NewValue(v interface{}) (*Value) {
 		return internal_value
 	}
 
+	// common reports a string that isn't a time only when given a pointer to it
+	getTimeObject := func() interface{} {
+		if string_value, is_string := internal_value.(string); is_string {
+			return &string_value
+		}
+		return internal_value
+	}
+
 	setObject := func(value interface{}) {
 		internal_value = value
 	}
@@ -1350,21 +1358,21 @@ func NewValue(v interface{}) (*Value) {
 				return nil, nil
 			}
 		
-			return common.GetTimeWithDecimalPlaces(this().GetObject(), decimal_places)
+			return common.GetTimeWithDecimalPlaces(getTimeObject(), decimal_places)
 		},
 		GetTime: func() (*time.Time, []error) {
 			if this().IsNil() {
 				return nil, nil
 			}
 		
-			return common.GetTime(this().GetObject())
+			return common.GetTime(getTimeObject())
 		},
 		GetTimeValue: func() (time.Time, []error) {
-			temp_time, temp_time_errors := common.GetTime(this().GetObject())
+			temp_time, temp_time_errors := this().GetTime()
 			if temp_time_errors != nil {
 				return (*common.GetTimeZero()), temp_time_errors
-			} else if common.IsNil(temp_time) {
-				return (*common.GetTimeZero()), temp_time_errors
+			} else if temp_time == nil {
+				return (*common.GetTimeZero()), []error{fmt.Errorf("Value.GetTimeValue value is nil")}
 			}
 			return *temp_time, nil
 		},
-- 
2.43.0


From 1d6058394619c0f1d5cffc5d703f5c5eb3ac88a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:13 +0000
Subject: [PATCH 22/27] fix: Parse must reject white space that JSON does not
 allow around values

---
 json/JSON.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 3af1db3..6d81d61 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -37,6 +37,9 @@ func getType(object interface{}) string {
 	return fmt.Sprintf("%T", object)
 }
 
+// white_space is the white space that JSON allows between tokens.
+const white_space = " \n\t\r"
+
 func cloneString(value *string) *string {
 	if value == nil {
 		return nil
@@ -494,7 +497,7 @@ func parseJSONMap(json_string string, index *uint64, mode *string, metrics *Map)
 			continue
 		}
 
-		value_missing := !value_complete && strings.TrimSpace(temp_value_r) == ""
+		value_missing := !value_complete && strings.Trim(temp_value_r, white_space) == ""
 
 		if !parsing_string {
 			if (value == "{" || value == "[") && !value_missing {
@@ -700,8 +703,8 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 
 	data_type := ""
 
-	key_value = strings.TrimSpace(key_value)
-	string_value = strings.TrimSpace(string_value)
+	key_value = strings.Trim(key_value, white_space)
+	string_value = strings.Trim(string_value, white_space)
 
 	if ((*list)[len(*list)-1]).IsMap() {
 		if strings.HasPrefix(key_value, "\"") && strings.HasSuffix(key_value, "\"") {
@@ -739,7 +742,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	var uint8_value *uint8
 
 	if data_type != "string" {
-		string_value = strings.Trim(string_value, " \n\t\r\\")
+		string_value = strings.Trim(string_value, white_space+"\\")
 
 		if string_value == "true" {
 			data_type = "bool"
-- 
2.43.0


From d664e4b4d4a18aa7fab433ef5a8f548b860da655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 23/27] fix: GetArrayOfBoolValue of a missing or null key must
 return an error like the other value getters

---
 json/Map.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/json/Map.go b/json/Map.go
index af1c8b5..b121058 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -740,12 +740,10 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return array.GetArrayOfBool()
 		},
 		GetArrayOfBoolValue: func(s string) ([]bool, []error) {
-			array, array_errors := getArray(s)
+			array, array_errors := getArrayValue(s)
 			if array_errors != nil {
 				return nil, array_errors
-			} else if common.IsNil(array) {
-				return nil, nil
-			}
+			} 
 			return array.GetArrayOfBoolValue()
 		},
 		GetString: func(s string) (*string, []error) {
-- 
2.43.0


From 4b0b4fe81dd10cffd8ad09f485209bfcb6275c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:16 +0000
Subject: [PATCH 24/27] fix: an error of any type must be written, converted
 and cloned by its message

---
 json/JSON.go  | 14 ++++++++++++--
 json/Value.go |  6 +++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 6d81d61..27e122b 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -1221,7 +1221,13 @@ func ConvertInterfaceValueToJSONStringValue(json *strings.Builder, value interfa
 	case "nil":
 		json.WriteString("null")
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		if temp_error, is_error := temp_value.(error); is_error {
+			json.WriteString("\"")
+			json.WriteString(escapeString(temp_error.Error()))
+			json.WriteString("\"")
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToJSONStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
@@ -1342,7 +1348,11 @@ func ConvertInterfaceValueToStringValue(value interface{}) (string, []error) {
 	case "*json.Value":
 		result = fmt.Sprintf("%s", (*(temp_value.(*Value))).GetObject())
 	default:
-		errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		if temp_error, is_error := temp_value.(error); is_error {
+			result = temp_error.Error()
+		} else {
+			errors = append(errors, fmt.Errorf("error: JSON.ConvertInterfaceValueToStringValue: type %s is not supported please implement", rep))
+		}
 	}
 
 	if len(errors) > 0 {
diff --git a/json/Value.go b/json/Value.go
index 8b43258..d2c9fcc 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -356,7 +356,11 @@ func NewValue(v interface{}) (*Value) {
 					result := "*func(string) []error"
 					cloned_value.SetStringValue(result)
 				default:
-					errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					if temp_error, is_error := temp_object.(error); is_error {
+						cloned_value.SetErrorValue(fmt.Errorf("%s", temp_error.Error()))
+					} else {
+						errors = append(errors, fmt.Errorf("error: Value.Clone: type %s is not supported please implement", rep))
+					}
 			}
 			
 		}
-- 
2.43.0


From 8f8cb577c9ed2fae6552a2c6a5c8139df422cc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:43 +0000
Subject: [PATCH 25/27] fix: Clone must copy every error list the setters
 accept and treat a nil error as null

---
 json/JSON.go  |  7 +++++--
 json/Value.go | 16 ++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/json/JSON.go b/json/JSON.go
index 27e122b..c1be383 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -15,7 +15,8 @@ import (
 	common "github.com/matehaxor03/holistic_common/common"
 )
 
-// isNil reports whether object is nil or holds a nil pointer, map or function.
+// isNil reports whether object is nil or holds a nil pointer, map, function or
+// a pointer to a nil error.
 func isNil(object interface{}) bool {
 	if object == nil {
 		return true
@@ -23,7 +24,9 @@ func isNil(object interface{}) bool {
 
 	value := reflect.ValueOf(object)
 	switch value.Kind() {
-	case reflect.Ptr, reflect.Map, reflect.Func:
+	case reflect.Ptr:
+		return value.IsNil() || (value.Elem().Kind() == reflect.Interface && value.Elem().IsNil())
+	case reflect.Map, reflect.Func:
 		return value.IsNil()
 	}
 	return false
diff --git a/json/Value.go b/json/Value.go
index d2c9fcc..679ddd0 100644
--- a/json/Value.go
+++ b/json/Value.go
@@ -215,10 +215,26 @@ func NewValue(v interface{}) (*Value) {
 					result := temp_object.([]error)
 					var result_array []error
 					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
 						e := fmt.Errorf("%s", result_array_value.Error())
 						result_array = append(result_array, e)
 					}	
 					cloned_value.SetErrorsValue(result_array)				
+				case "*[]error": 
+					result := *(temp_object.(*[]error))
+					var result_array []error
+					for _, result_array_value := range result {
+						if result_array_value == nil {
+							result_array = append(result_array, nil)
+							continue
+						}
+						e := fmt.Errorf("%s", result_array_value.Error())
+						result_array = append(result_array, e)
+					}	
+					cloned_value.SetErrors(&result_array)				
 				case "*error":
 					result := fmt.Sprintf("%s", (*(temp_object.(*error))).Error())
 					cloned_error := fmt.Errorf("%s", result)
-- 
2.43.0


From f2b0f823fbe22193d82a4407f548dbccbdb379ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:00 +0000
Subject: [PATCH 26/27] fix: a lone quote after a backslash is an error instead
 of a panic

---
 json/JSON.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json/JSON.go b/json/JSON.go
index c1be383..77951c6 100644
--- a/json/JSON.go
+++ b/json/JSON.go
@@ -719,7 +719,7 @@ func parseJSONValue(key_value string, string_value string, list *([](*Value))) [
 	}
 
 	if strings.Contains(string_value, "\"") {
-		if strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
+		if len(string_value) >= 2 && strings.HasPrefix(string_value, "\"") && strings.HasSuffix(string_value, "\"") {
 			data_type = "string"
 			dequoted_value := (string_value)[1:(len(string_value) - 1)]
 			string_value = unescapeString(dequoted_value)
-- 
2.43.0


From 5f712c23040022809931dd85d365415c31679b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:01 +0000
Subject: [PATCH 27/27] fix: Values gives a list of its own instead of the
 map's internal one

---
 json/Map.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/json/Map.go b/json/Map.go
index b121058..40f5d5f 100644
--- a/json/Map.go
+++ b/json/Map.go
@@ -1122,7 +1122,11 @@ func NewMapOfValues(m *map[string]interface{}) *Map {
 			return getInternalValue(s).GetTimeWithDecimalPlaces(decimal_places)
 		},
 		Values: func() *Array {
-			return internal_keys_obj
+			values := NewArray()
+			for _, value := range *(internal_keys_obj.GetValues()) {
+				values.AppendValue(value)
+			}
+			return values
 		},
 		Clone: func() (*Map, []error) {
 			return clone()
-- 
2.43.0

