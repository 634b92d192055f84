From 3c1d2b2c16161372b547036d2017fde151dfd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:46 +0000
Subject: [PATCH 01/38] fix: keep empty AND/OR nodes when a rule is copied
 through JSON

An AND or OR node without operands was marshalled as {}, so the copy made
when a rule is prepared could not be parsed and evaluation hit a nil
pointer. Marshal the empty list instead.
---
 MAPL_engine/conditions_tree.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 9533e86..27f948d 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -119,7 +119,7 @@ type AnyAllNode interface {
 // And Node
 //--------------------------------------
 type And struct {
-	Nodes []Node `yaml:"AND,omitempty" json:"AND,omitempty" bson:"AND,omitempty" structs:"AND,omitempty"`
+	Nodes []Node `yaml:"AND,omitempty" json:"AND" bson:"AND,omitempty" structs:"AND,omitempty"`
 }
 
 func (a *And) Eval(message *MessageAttributes) (bool, []map[string]interface{}) {
@@ -180,7 +180,7 @@ func AndOrString(a_nodes []Node, andOrStr string) string {
 // Or Node
 //--------------------------------------
 type Or struct {
-	Nodes []Node `yaml:"OR,omitempty" json:"OR,omitempty" bson:"OR,omitempty" structs:"OR,omitempty"`
+	Nodes []Node `yaml:"OR,omitempty" json:"OR" bson:"OR,omitempty" structs:"OR,omitempty"`
 }
 
 func (o *Or) Eval(message *MessageAttributes) (bool, []map[string]interface{}) {
@@ -967,10 +967,10 @@ func getNodeByParentString(parentString string) (Node, error) {
 	switch parentString {
 
 	case "AND":
-		return &And{}, nil
+		return &And{Nodes: []Node{}}, nil
 
 	case "OR":
-		return &Or{}, nil
+		return &Or{Nodes: []Node{}}, nil
 
 	case "NOT":
 		return &Not{}, nil
-- 
2.43.0


From 8625ccf1f461a72e9b0bb5da665557915fbdc837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:46 +0000
Subject: [PATCH 02/38] fix: accept a single condition under the conditions
 keyword

A single condition was accepted under condition and conditionsTree but
rejected under conditions, although trees are accepted under all three.
---
 MAPL_engine/conditions_tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 27f948d..f913c28 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -793,7 +793,7 @@ func getNodeCondition(v map[string]interface{}, parentString string) (Node, erro
 		return nil, err
 	}
 
-	if parentString != "" && parentString != "condition" && parentString != "conditionsTree" { // add the condition to a AND,OR etc... Node
+	if parentString != "" && parentString != "condition" && parentString != "conditions" && parentString != "conditionsTree" { // add the condition to a AND,OR etc... Node
 		nodes, err := getNodeByParentString(parentString)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From a3702f0b5ef585526cbc032bb274af6919d7bf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:46:10 +0000
Subject: [PATCH 03/38] fix: treat protocol TCP like tcp when testing the port

The protocol comparison ignores letter case everywhere else, but only the
lower-case spelling tested the destination port.
---
 MAPL_engine/check.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e0f5817..c56ae91 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -124,7 +124,7 @@ func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[st
 
 	// ----------------------
 	// compare resource:
-	if rule.Protocol == "tcp" {
+	if strings.EqualFold(rule.Protocol, "tcp") { // regardless of case
 		match = rule.Resource.ResourceNameRegex.Match([]byte(message.DestinationPort))
 		if !match {
 			return DEFAULT, []map[string]interface{}{}
-- 
2.43.0


From fad5f3ab7bb7f8dde76e5a8b534455174966eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:47:46 +0000
Subject: [PATCH 04/38] fix: let read cover CONSUME and write cover PRODUCE

The specification lists these Kafka operations under the words read and
write, but rules using the words did not apply to them.
---
 MAPL_engine/string_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 2387fce..c57ff26 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -118,9 +118,9 @@ func ConvertOperationStringToRegex(str_in string) string {
 	case "*":
 		str_out = ".*"
 	case "write", "WRITE":
-		str_out = "(^POST$|^PUT$|^DELETE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
+		str_out = "(^POST$|^PUT$|^DELETE$|^PRODUCE$)" // we cannot translate to ".*" because then rules of type "write:block" would apply to all messages.
 	case "read", "READ":
-		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^read$|^READ$)"
+		str_out = "(^GET$|^HEAD$|^OPTIONS$|^TRACE$|^CONSUME$|^read$|^READ$)"
 	default:
 		str_out = ConvertStringToRegex(str_in, "WithWildcards") // we allow automatic use of wildcards in Operation attribute
 	}
-- 
2.43.0


From c6effd7f48194a77f8fac4875ffdbc619821c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:27 +0000
Subject: [PATCH 05/38] fix: do not crash when a numeric attribute is compared
 with a non-integer value

A payload size condition with units or a fraction, such as 4K, is now compared
as a number. A value that is not a number is never equal to one.
---
 MAPL_engine/check.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index c56ae91..0f78bce 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -280,7 +280,11 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 
 	case ("payloadSize"):
 		valueToCompareInt = message.RequestSize
-		result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		if c.ValueInt == nil { // a value with units or with a fraction
+			result = compareFloatFunc(float64(valueToCompareInt), c.Method, c.ValueFloat)
+		} else {
+			result = compareIntFunc(valueToCompareInt, c.Method, c.ValueInt)
+		}
 
 	case ("requestUseragent"):
 		valueToCompareString = message.RequestUseragent
@@ -808,6 +812,14 @@ func compareIntFunc(value1 int64, method string, value2 *int64) bool { //value2
 
 // compareFloatFunc compares one float value according the method string.
 func compareFloatFunc(value1 float64, method string, value2 *float64) bool { //value2 is the reference value from the rule
+	if value2 == nil { // the reference value is not a number
+		switch method {
+		case "NEQ", "neq", "ne", "NE":
+			return true
+		}
+		return false
+	}
+
 	switch method {
 	case "EQ", "eq":
 		return (value1 == *value2)
-- 
2.43.0


From 67563695d3361a1a14b5aed8a3c48406e481c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:27 +0000
Subject: [PATCH 06/38] fix: do not crash on messages without an encryption
 version

---
 MAPL_engine/check.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0f78bce..f0433bb 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -307,6 +307,9 @@ func testOneCondition(c *Condition, message *MessageAttributes) (bool, []map[str
 		}
 
 	case ("encryptionVersion"):
+		if message.EncryptionVersion == nil { // the message has no encryption version
+			return false, []map[string]interface{}{}
+		}
 		valueToCompareFloat = *message.EncryptionVersion
 		result = compareFloatFunc(valueToCompareFloat, c.Method, c.ValueFloat)
 
-- 
2.43.0


From ab1176a3e97e3a7e7ee571ffe6efd0fdfe4b440a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:34 +0000
Subject: [PATCH 07/38] fix: a rule that cannot be prepared does not apply
 instead of crashing

---
 MAPL_engine/check.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index f0433bb..012d02f 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -101,7 +101,11 @@ func Check(message *MessageAttributes, rules *Rules) (decision int, descisionStr
 func CheckOneRule(message *MessageAttributes, ruleOriginal *Rule) (int, []map[string]interface{}) {
 
 	if !ruleOriginal.ruleAlreadyPrepared {
-		ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := ruleOriginal.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return DEFAULT, []map[string]interface{}{}
+		}
 	}
 	rule := ruleOriginal.preparedRule // the prepared rule is the one used below!
 	// ----------------------
@@ -248,7 +252,11 @@ func TestReceiver(rule *Rule, message *MessageAttributes) bool {
 func TestConditions(rule *Rule, message *MessageAttributes) (bool, []map[string]interface{}) { // to-do return error
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists)
+		if err != nil {
+			log.Printf("can't prepare rule: %v", err)
+			return false, []map[string]interface{}{}
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree != nil {
-- 
2.43.0


From 43ae19e3ea200b67cca6850f52038d8b5131a22f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:11:41 +0000
Subject: [PATCH 08/38] fix: return the error when a rule cannot be prepared
 for a mongo query

---
 MAPL_engine/rule_mongo_plugin.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/rule_mongo_plugin.go b/MAPL_engine/rule_mongo_plugin.go
index a11265d..43abe2e 100644
--- a/MAPL_engine/rule_mongo_plugin.go
+++ b/MAPL_engine/rule_mongo_plugin.go
@@ -17,7 +17,10 @@ type MaplToMongoResult struct {
 func (rule *Rule) ToMongoQuery(parentField string) (MaplToMongoResult, error) {
 
 	if !rule.ruleAlreadyPrepared {
-		rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		err := rule.SetPredefinedStringsAndLists(GlobalPredefinedStringsAndLists) // use the global if not set already
+		if err != nil {
+			return MaplToMongoResult{"", nil}, err
+		}
 	}
 
 	if rule.preparedRule.Conditions.ConditionsTree == nil {
-- 
2.43.0


From 7f5643ea99769f074e414c8f253cf16378b1080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:50:22 +0000
Subject: [PATCH 09/38] fix: apply decimal units without rounding

Multiplying by a decimal factor rounds, so 8.2T was not equal to 8200000000000
and 35% was larger than 0.35. The unit is now read as an exponent.
---
 MAPL_engine/string_utils.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index c57ff26..f7d049a 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -142,6 +142,7 @@ func convertStringWithUnits(inputString string) (string, float64) {
 
 	factorVec := []float64{1e-2, 1e3, 1e6, 1e9, 1e12, 1e15, 1e18, 1024, math.Pow(1024, 2), math.Pow(1024, 3), math.Pow(1024, 4), math.Pow(1024, 5), math.Pow(1024, 6), 1e3, 1e6, 1e9, 1e12, 1e15, 1e18, 0.001}
 	strVec := []string{"%", "e3", "e6", "e9", "e12", "e15", "e18", "Ki", "Mi", "Gi", "Ti", "Pi", "Ei", "K", "M", "G", "T", "P", "E", "m"}
+	exponentVec := []string{"e-2", "e3", "e6", "e9", "e12", "e15", "e18", "", "", "", "", "", "", "e3", "e6", "e9", "e12", "e15", "e18", "e-3"}
 
 	for i_unit, unit := range strVec {
 
@@ -150,6 +151,9 @@ func convertStringWithUnits(inputString string) (string, float64) {
 
 		if flag1 && flag2 {
 			outputString := strings.Replace(inputString, unit, "", -1)
+			if exponentVec[i_unit] != "" && strings.Trim(outputString, "+-.0123456789") == "" {
+				return outputString + exponentVec[i_unit], 1.0 // multiplying by a decimal factor could round (8.2*1e12 is not 8.2e12)
+			}
 			factor := factorVec[i_unit]
 			return outputString, factor
 		}
-- 
2.43.0


From fc0f0fc712d1062ff2af9e497d0ee1c78ff76b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:07 +0000
Subject: [PATCH 10/38] fix: honour wildcards in EQ/NEQ conditions on
 attributes and labels

The documentation promises '*' and '?' in the value, but the value was used
as a plain regular expression: 'd*' did not match 'def' and 'a.c' matched 'abc'.
---
 MAPL_engine/string_utils.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index f7d049a..3c2c5a6 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -42,11 +42,18 @@ func RemoveDotQuotes(str string) string {
 	return strOut
 }
 
+var wildcardsToRegex = strings.NewReplacer(".", "[.]", "$", "\\$", "^", "\\^", "*", ".*", "?", ".", "/", "\\/")
+
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
 
 	str_out := "^" + str_in + "$"
 
+	switch method {
+	case "EQ", "eq", "NEQ", "neq", "NE", "ne": // the value is not a list but it may contain wildcards
+		str_out = "^" + wildcardsToRegex.Replace(str_in) + "$"
+	}
+
 	if method == "IN" || method == "NIN" || method == "WithWildcards" { // We try to convert to a list only in case of IN or NIN
 		str_list := strings.Split(str_in, ",")
 
-- 
2.43.0


From 3d41e3469364d28d4c024807aeb8a531e44ae551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:21 +0000
Subject: [PATCH 11/38] fix: accept the lower-case methods in and nin

They passed the validation but never matched.
---
 MAPL_engine/rules_load.go          | 5 +++++
 MAPL_engine/validate_conditions.go | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index c92017f..4ebca4f 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -330,6 +330,11 @@ func ConvertConditionStringToIntFloatRegex(condition *Condition) error { // TO-D
 	condition.OriginalMethod = condition.Method
 	condition.OriginalValue = condition.Value
 
+	switch condition.Method {
+	case "in", "nin": // same as IN, NIN
+		condition.Method = strings.ToUpper(condition.Method)
+	}
+
 	if condition.Method == "IN" || condition.Method == "NIN" || condition.Method == "IS" {
 		tempString := strings.Replace(condition.Value, "[", "", -1)
 		tempString = strings.Replace(tempString, "]", "", -1)
diff --git a/MAPL_engine/validate_conditions.go b/MAPL_engine/validate_conditions.go
index 6a857e5..de28a60 100755
--- a/MAPL_engine/validate_conditions.go
+++ b/MAPL_engine/validate_conditions.go
@@ -129,7 +129,7 @@ func validateMethod(condition *Condition) (bool, error) {
 	if !slice.ContainsString(supportedMethodsSlice, condition.Method) {
 		return false, fmt.Errorf("invalid method in condition [%v]", condition.Method)
 	}
-	if condition.Method == "IN" || condition.Method == "NIN" {
+	if strings.EqualFold(condition.Method, "IN") || strings.EqualFold(condition.Method, "NIN") {
 		L := len(condition.Value)
 		if L == 0 {
 			return false, fmt.Errorf("test membership in empty array")
-- 
2.43.0


From 1dedf1acd3fa8903b63ad898c9278fafd8d6383d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:21 +0000
Subject: [PATCH 12/38] fix: expand predefined lists for the lower-case methods
 re and nre

The list was joined with commas instead of alternatives.
---
 MAPL_engine/rules_load.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/rules_load.go b/MAPL_engine/rules_load.go
index 4ebca4f..cc558d3 100644
--- a/MAPL_engine/rules_load.go
+++ b/MAPL_engine/rules_load.go
@@ -268,7 +268,7 @@ func ReplaceStringsAndListsInCondition(c *Condition, stringsAndlists PredefinedS
 	newList, ok, isReplaceable := isReplaceableList(c.Value, stringsAndlists)
 	if ok {
 		newValue := ""
-		if c.Method == "RE" || c.Method == "NRE" {
+		if slice.ContainsString(regexSlice, c.Method) {
 			newValue = convertListToRegexString(newList)
 			_, err := regexp.Compile(newValue)
 			if err != nil {
-- 
2.43.0


From 237219d81552f2a8f64406cf63e21f909a78f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:21 +0000
Subject: [PATCH 13/38] fix: let NEX on a label test that the label does not
 exist

NEX was false on messages without the label and true on an existing label
with an empty value.
---
 MAPL_engine/check.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 012d02f..59f3fe8 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -463,6 +463,10 @@ func testSenderLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("senderLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		_, ok := message.SourceLabels[c.AttributeSenderLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.SourceLabels[c.AttributeSenderLabelKey]; ok { // enter the block only if the key exists
 		if c.ValueIsReceiverLabel {
 			if valueToCompareString2, ok2 := message.DestinationLabels[c.ValueReceiverLabelKey]; ok2 {
@@ -493,6 +497,10 @@ func testReceiverLabelCondition(c *Condition, message *MessageAttributes) bool {
 		log.Println("receiverLabel without the correct format")
 		return false
 	}
+	if c.Method == "NEX" || c.Method == "nex" { // just test the existence of the key
+		_, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]
+		return !ok
+	}
 	if valueToCompareString1, ok := message.DestinationLabels[c.AttributeReceiverLabelKey]; ok { // enter the block only if the key exists
 		if c.Method == "RE" || c.Method == "re" || c.Method == "NRE" || c.Method == "nre" {
 			result = compareRegexFunc(valueToCompareString1, c.Method, c.ValueRegex)
-- 
2.43.0


From 46c2871f2b0b6dfa53a5f9832dd7af6ccd77d01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:02:21 +0000
Subject: [PATCH 14/38] fix: treat NE like NEQ for strings in documents

---
 MAPL_engine/check.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 59f3fe8..ec4b03b 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -590,7 +590,7 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		valueToCompareFloat = valueToCompareFloat * factor
 
 		if err != nil {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				result = compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
 				log.Println("can't parse jsonpath value [float]")
@@ -684,7 +684,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 			valueToCompareFloat, err = strconv.ParseFloat(valueStringWithoutUnits, 64)
 			if err != nil {
 				log.Println("can't parse jsonpath value [float]")
-				if method == "NEQ" {
+				if method == "NEQ" || method == "NE" {
 					return true
 				}
 				return false
@@ -694,7 +694,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		}
 
 		if !flagCompareToNumber {
-			if method == "EQ" || method == "NEQ" {
+			if method == "EQ" || method == "NEQ" || method == "NE" {
 				//return compareStringWithWildcardsFunc(valueToCompareString, c.Method, c.ValueStringRegex) // compare strings with wildcards
 				return compareStringFunc(valueToCompareString, c.Method, c.Value) // compare strings (strightforward comparison. use of wildcards is only via RE)
 			} else {
-- 
2.43.0


From fe7ccf4c067632974618477d2600b7fc7d34beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:41 +0000
Subject: [PATCH 15/38] fix: read strings, null and numbers of a document the
 same way in both forms

- escaped characters of strings in raw documents were not decoded
- null in a raw document was taken for a value, and the string '<nil>' in a
  decoded document for an absent one
- quotes and brackets inside strings were removed
- large numbers of a decoded document were written with an exponent
- spaces inside arrays of raw documents mattered
---
 MAPL_engine/check.go | 55 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 11 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index ec4b03b..decea47 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -556,19 +556,24 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		return false
 	}
 
-	valueToCompareString := string(valueToCompareBytes)
+	valueToCompareString, isString := getTextOfRawValue(valueToCompareBytes)
+	if c.AttributeJsonpathQuery == "$KEY" { // the key itself and not a json value
+		valueToCompareString, isString = string(valueToCompareBytes), true
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	if !isString {
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+	}
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
 	result := false
 	L := len(valueToCompareString) - 1
-	if L > 0 {
+	if L > 0 && !isString {
 		if valueToCompareString[0] == '"' && valueToCompareString[L] != '"' {
 			log.Println("quotation marks not aligned")
 			return false
@@ -649,7 +654,14 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	}
 
 	var valueToCompareString string
-	switch valueToCompareInterface.(type) {
+	isString := false
+	switch v := valueToCompareInterface.(type) {
+	case nil: // the same as an absent field
+	case string:
+		valueToCompareString = v
+		isString = true
+	case float64:
+		valueToCompareString = strconv.FormatFloat(v, 'f', -1, 64) // as written in the document and not 1e+06
 	case map[string]interface{}, []interface{}:
 		jsonBytes, _ := json.Marshal(valueToCompareInterface)
 		valueToCompareString = string(jsonBytes)
@@ -657,17 +669,18 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
 
-	if len(valueToCompareString) == 0 || valueToCompareString == "<nil>" {
-		return whatToReturnInCaseOfEmptyResult(*c)
-	}
-
-	valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
 	if len(valueToCompareString) == 0 {
 		return whatToReturnInCaseOfEmptyResult(*c)
 	}
 
-	valueToCompareString, ok := removeQuotesFromResult(valueToCompareString)
-	{
+	if !isString {
+		valueToCompareString = removeQuotesAndBrackets(valueToCompareString)
+		if len(valueToCompareString) == 0 {
+			return whatToReturnInCaseOfEmptyResult(*c)
+		}
+
+		var ok bool
+		valueToCompareString, ok = removeQuotesFromResult(valueToCompareString)
 		if !ok {
 			return false
 		}
@@ -766,6 +779,26 @@ func whatToReturnInCaseOfEmptyResult(c Condition) bool {
 	return false // default test result is false on an empty jsonpath result
 }
 
+// getTextOfRawValue returns the text of a value of a raw json document. It is the content of the string if the value is a string,
+// empty if the value is null.
+func getTextOfRawValue(raw []byte) (string, bool) {
+	if len(raw) == 0 {
+		return "", false
+	}
+	switch raw[0] {
+	case '"':
+		var str string
+		if err := json.Unmarshal(raw, &str); err == nil {
+			return str, true
+		}
+	case '[', '{':
+		raw = pretty.Ugly(raw)
+	case 'n':
+		return "", false
+	}
+	return string(raw), false
+}
+
 func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 	//used only with byte array raw data. for interface raw data we use another method.
 	valueToCompareBytes := []byte{}
-- 
2.43.0


From 0509aa828895b67b187697e4d34f6f8606bf25e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:10 +0000
Subject: [PATCH 16/38] fix: do not crash on $KEY/$VALUE of values which are
 not a single entry

In decoded documents a scalar element crashed the evaluation, and an object
with several keys gave a random one of them.
---
 MAPL_engine/check.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index decea47..9ba62b1 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -735,6 +735,13 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 func getKeyValueFromInterface(c *Condition, message *MessageAttributes) (interface{}, error) {
 	var valueToCompareInterface interface{}
 	var err error
+	entry, ok := (*message.RequestRawInterfaceRelative).(map[string]interface{})
+	if !ok {
+		return nil, fmt.Errorf("$KEY/$VALUE of a value which is not a json object")
+	}
+	if len(entry) != 1 { // as in getKeyValue
+		return nil, nil
+	}
 	if c.AttributeJsonpathQuery == "$KEY" {
 		xx := (*message).RequestRawInterfaceRelative
 		yy := (*xx).(map[string]interface{})
-- 
2.43.0


From bf293a99686f50befc308b745e60134ffd390d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:10:10 +0000
Subject: [PATCH 17/38] fix: evaluate fields of $VALUE in decoded documents

'$VALUE.c' looked at all the fields of the value instead of the field c.
---
 MAPL_engine/check.go           | 4 ++--
 MAPL_engine/conditions_tree.go | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 9ba62b1..0d94abe 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -532,8 +532,8 @@ func testJsonPathCondition(c *Condition, message *MessageAttributes) bool {
 		}
 		if c.AttributeJsonpathQuery == "$KEY" || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE") {
 			valueToCompareBytes, err = getKeyValue(*message.RequestJsonRawRelative, c.AttributeJsonpathQuery)
-			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") {
-				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE.", "$.", 1)
+			if strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE.") || strings.HasPrefix(c.AttributeJsonpathQuery, "$VALUE[") {
+				tempQuery := strings.Replace(c.AttributeJsonpathQuery, "$VALUE", "$", 1)
 				valueToCompareBytes, err = jsonslice.Get(valueToCompareBytes, tempQuery)
 			}
 		} else {
diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index f913c28..6abacad 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -386,6 +386,9 @@ func prepareJsonpathQuery(query string) (jsonpath.FilterFunc, error) {
 	if query == "$*" {
 		query = "$.*"
 	}
+	if strings.HasPrefix(query, "$VALUE.") || strings.HasPrefix(query, "$VALUE[") { // a field of the value
+		query = strings.Replace(query, "$VALUE", "$", 1)
+	}
 	if strings.Contains(query, "$KEY") || strings.Contains(query, "$VALUE") {
 		preparedJsonpath, _ := jsonpath.Prepare("$.*") // just instead of nil. we are not going to use it
 		return preparedJsonpath, nil
-- 
2.43.0


From e6f9fb9ec7043b1722f76324e3377fc5311014fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:16:23 +0000
Subject: [PATCH 18/38] fix: select the elements of ANY and ALL the same way in
 both document forms

Elements were cut out of the raw bytes by counting braces and replacing
text. A brace inside a string, scalar elements, an object in a list of
paths or nested arrays gave a different result than the decoded document.
A list of paths also wrote over the bytes of the message. The decoded form
crashed on scalars, ignored which paths of a list are relative and kept
the paths of an earlier preparation of the same rule.
---
 MAPL_engine/check.go           | 221 +++++++++++++++------------------
 MAPL_engine/conditions_tree.go |   2 +
 2 files changed, 99 insertions(+), 124 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 0d94abe..4b40773 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -10,6 +10,7 @@ import (
 	"github.com/yalp/jsonpath"
 	"log"
 	"regexp"
+	"sort"
 	"strconv"
 	"strings"
 )
@@ -963,47 +964,29 @@ func compareRegexFunc(value1 string, method string, value2 *regexp.Regexp) bool
 func getArrayOfInterfaces(a AnyAllNode, message *MessageAttributes) ([]interface{}, error) {
 	// used in eval of ANY/ALL node (getting the data from the message raw interface attributes by the parentJsonpath)
 
-	var arrayDataInterface interface{}
-	err := errors.New("error")
-	parentJsonpath := a.GetParentJsonpathAttribute()
-	if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
-
-		if parentJsonpath == "$RELATIVE*" {
-			var temp []interface{}
-			xx := (*message).RequestRawInterfaceRelative
-			yy := (*xx).(map[string]interface{})
-			for k, v := range yy {
-				zz := make(map[string]interface{}, 1)
-				zz[k] = v
-				temp = append(temp, zz)
-			}
-			return temp, nil
+	returnArray := []interface{}{}
+	parentJsonpathList := a.GetParentJsonpathAttributeArray()
+	for i, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
+		document := message.RequestRawInterface
+		if isRelativeParentJsonpath(parentJsonpathList[i]) {
+			document = message.RequestRawInterfaceRelative
 		}
-
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterfaceRelative)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
-			}
+		if document == nil {
+			return []interface{}{}, fmt.Errorf("no document for [%v]", parentJsonpathList[i])
 		}
-		return returnArray, nil
-	} else {
-		returnArray := []interface{}{}
-		for _, jsonpathQueryFunc := range a.GetPreparedJsonpathQuery() {
-			arrayDataInterface, err = jsonpathQueryFunc(*message.RequestRawInterface)
-			a := ArrangeArrayInterface(arrayDataInterface)
-			for _, aa := range a {
-				returnArray = append(returnArray, aa)
-			}
+		arrayDataInterface := *document
+		if parentJsonpathList[i] != "$RELATIVE*" {
+			arrayDataInterface, _ = jsonpathQueryFunc(*document) // no elements in case of an error
+		}
+		for _, aa := range ArrangeArrayInterface(arrayDataInterface) {
+			returnArray = append(returnArray, aa)
 		}
-		return returnArray, nil
-	}
-	if arrayDataInterface != nil {
-		return ArrangeArrayInterface(arrayDataInterface), nil
 	}
-	return []interface{}{}, err
+	return returnArray, nil
+}
+
+func isRelativeParentJsonpath(parentJsonpath string) bool { // to-do: create a flag once when parsing!
+	return strings.HasPrefix(parentJsonpath, "$RELATIVE") || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.")
 }
 
 func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
@@ -1011,15 +994,17 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 	case map[string]interface{}:
 		tempArray := arrayDataInterface.(map[string]interface{})
 		tempArrayOut := []interface{}{}
-		for k, v := range tempArray {
-			tempArrayOut = append(tempArrayOut, map[string]interface{}{k: v})
+		keys := getKeys(tempArray)
+		sort.Strings(keys)
+		for _, k := range keys {
+			tempArrayOut = append(tempArrayOut, map[string]interface{}{k: tempArray[k]})
 		}
 		return tempArrayOut
 	default:
-		if arrayDataInterface == nil {
+		tempArray, ok := arrayDataInterface.([]interface{})
+		if !ok { // nil or a scalar
 			return []interface{}{}
 		}
-		tempArray := arrayDataInterface.([]interface{})
 		tempArrayOut := []interface{}{}
 		for _, x := range tempArray {
 			switch x.(type) {
@@ -1038,52 +1023,41 @@ func ArrangeArrayInterface(arrayDataInterface interface{}) []interface{} {
 
 func getArrayOfJsons(a AnyAllNode, message *MessageAttributes) ([][]byte, error) {
 	// used in eval of ANY/ALL node (getting the data from the message attributes by the parentJsonpath)
-	arrayData := []byte{}
-	arrayDataTemp := []byte{}
-
-	err := errors.New("error")
+	arrayJson := [][]byte{}
 	parentJsonpathList := a.GetParentJsonpathAttributeArray()
+	if len(parentJsonpathList) == 0 { // the node was not prepared
+		return [][]byte{}, errors.New("error")
+	}
 	for _, parentJsonpath := range parentJsonpathList {
-		if strings.HasPrefix(parentJsonpath, "$RELATIVE.") || parentJsonpath == "$RELATIVE*" || strings.HasPrefix(parentJsonpath, "$KEY.") || strings.HasPrefix(parentJsonpath, "$VALUE.") { // to-do: create a flag once when parsing!
-			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE.", "$.", 1)
+		document := message.RequestJsonRaw
+		if isRelativeParentJsonpath(parentJsonpath) {
+			document = message.RequestJsonRawRelative
+			parentJsonpath = strings.Replace(parentJsonpath, "$RELATIVE", "$", 1)
 			parentJsonpath = strings.Replace(parentJsonpath, "$KEY.", "$.", 1) // to do: this is not supported. remove
 			parentJsonpath = strings.Replace(parentJsonpath, "$VALUE.", "$.", 1)
-			if parentJsonpath == "$RELATIVE*" {
-				parentJsonpath = "$*"
-			}
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRawRelative, parentJsonpath)
-		} else {
-			arrayDataTemp, err = jsonslice.Get(*message.RequestJsonRaw, parentJsonpath)
 		}
-		if err == nil {
-			if len(arrayData) == 0 {
-				arrayData = arrayDataTemp
-			} else {
-				if len(arrayDataTemp) != 0 {
-					arrayData = append(arrayData, ',')
-					arrayData = append(arrayData, arrayDataTemp...)
-				}
+		if document == nil {
+			return [][]byte{}, fmt.Errorf("no document for [%v]", parentJsonpath)
+		}
+		arrayData := *document
+		if parentJsonpath != "$*" {
+			var err error
+			arrayData, err = jsonslice.Get(*document, parentJsonpath)
+			if err != nil {
+				return [][]byte{}, err
 			}
 		}
-	}
-
-	if err != nil {
-		return [][]byte{}, err
-	}
-
-	arrayData, err = getArrayFromArrayOfArrays(arrayData)
-	if err != nil {
-		return [][]byte{}, err
-	}
 
-	arrayJson, err := getArrayOfJsonsFromInterfaceArray(arrayData)
+		arrayData = pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6. it also copies the data out of the message
 
-	if err != nil {
-		arrayJson, err := getArrayOfJsonsFromMapStringInterface(arrayData)
+		arrayJsonTemp, err := getArrayOfJsonsFromInterfaceArray(arrayData)
 		if err != nil {
-			return [][]byte{}, err
+			arrayJsonTemp, err = getArrayOfJsonsFromMapStringInterface(arrayData)
+			if err != nil {
+				return [][]byte{}, err
+			}
 		}
-		return arrayJson, nil
+		arrayJson = append(arrayJson, arrayJsonTemp...)
 	}
 	return arrayJson, nil
 }
@@ -1117,30 +1091,58 @@ func getArrayOfJsonsFromInterfaceArray(arrayData []byte) ([][]byte, error) {
 		return [][]byte{}, fmt.Errorf("not array of jsons")
 	}
 
+	arrayJson := splitJsonArray(arrayData)
+	for _, x := range arrayJson {
+		if x[0] != '[' {
+			return arrayJson, nil
+		}
+	}
+
+	// in case of deepscan we get an array of arrays. here we re-arrange it (see ArrangeArrayInterface).
+	arrayJsonOut := [][]byte{}
+	for _, x := range arrayJson {
+		arrayJsonOut = append(arrayJsonOut, splitJsonArray(x)...)
+	}
+	return arrayJsonOut, nil
+}
+
+// splitJsonArray returns the elements of a json array (without spaces between the elements)
+func splitJsonArray(arrayData []byte) [][]byte {
 	arrayJson := [][]byte{}
-	c := 0
-	start := -1
+	if len(arrayData) < 2 || arrayData[0] != '[' {
+		return arrayJson
+	}
+	c := 0 // depth
+	start := 1
+	inString := false
 	for i := 0; i < len(arrayData); i++ {
-		if arrayData[i] == '{' {
-			if c == 0 {
-				start = i
+		if inString {
+			if arrayData[i] == '\\' {
+				i += 1
+			} else if arrayData[i] == '"' {
+				inString = false
 			}
-			c += 1
+			continue
 		}
-		if arrayData[i] == '}' {
+		switch arrayData[i] {
+		case '"':
+			inString = true
+		case '{', '[':
+			c += 1
+		case '}', ']':
 			c -= 1
 		}
-		if c == 0 {
-			if start == -1 {
-				continue
+		if (c == 1 && arrayData[i] == ',') || c == 0 {
+			if start < i {
+				arrayJson = append(arrayJson, arrayData[start:i])
 			}
-			y := arrayData[start : i+1]
-			start = -1
-			arrayJson = append(arrayJson, y)
+			start = i + 1
+		}
+		if c == 0 {
+			break
 		}
 	}
-
-	return arrayJson, nil
+	return arrayJson
 }
 
 func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
@@ -1150,9 +1152,11 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	if err != nil {
 		return [][]byte{}, err
 	}
-	for i_x, x := range arrayInterface {
+	keys := getKeys(arrayInterface)
+	sort.Strings(keys)
+	for _, i_x := range keys {
 		z := map[string]interface{}{}
-		z[i_x] = x
+		z[i_x] = arrayInterface[i_x]
 		y, err := json.Marshal(z)
 		if err != nil {
 			return [][]byte{}, err
@@ -1161,34 +1165,3 @@ func getArrayOfJsonsFromMapStringInterface(arrayData []byte) ([][]byte, error) {
 	}
 	return arrayJson, nil
 }
-
-func getArrayFromArrayOfArrays(arrayData []byte) ([]byte, error) {
-	if len(arrayData) < 2 {
-		return arrayData, nil
-	}
-
-	/*  slow. we should use "pretty.Ugly" instead
-	buffer := new(bytes.Buffer) // clean the json
-	err := json.Compact(buffer, arrayData)
-	if err != nil {
-		return []byte{}, err
-	}
-	arrayDataNew = buffer.Bytes()
-	*/
-
-	arrayDataNew := pretty.Ugly(arrayData) // faster then json.Compact by a factor of ~6
-
-	if arrayDataNew[0] != '[' || arrayDataNew[1] != '[' {
-		return arrayDataNew, nil
-	}
-
-	arrayDataString := string(arrayDataNew)
-	arrayDataString = strings.Replace(arrayDataString, "[[", "[", 1)
-	arrayDataString = strings.Replace(arrayDataString, "]]", "]", 1)
-	arrayDataString = strings.Replace(arrayDataString, "],[", ",", -1)
-
-	if strings.Contains(arrayDataString, "[[") || strings.Contains(arrayDataString, "]]") {
-		return []byte{}, fmt.Errorf("malformed arrayData")
-	}
-	return []byte(arrayDataString), nil
-}
diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 6abacad..a81ea9e 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -371,6 +371,7 @@ func (a *Any) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
 
+	a.PreparedJsonpathQuery = nil // the rule may be prepared more than once
 	for _, j := range a.GetParentJsonpathAttributeArray() {
 		preparedJsonpath, err := prepareJsonpathQuery(j)
 		if err != nil {
@@ -559,6 +560,7 @@ func (a *All) PrepareAndValidate(stringsAndlists PredefinedStringsAndLists) erro
 
 	a.ParentJsonpathAttributeArray = strings.Split(a.GetParentJsonpathAttribute(), ",")
 
+	a.PreparedJsonpathQuery = nil // the rule may be prepared more than once
 	for _, j := range a.GetParentJsonpathAttributeArray() {
 		preparedJsonpath, err := prepareJsonpathQuery(j)
 		if err != nil {
-- 
2.43.0


From 941c434dc8689c456829446dd3467e8deb11292d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:27:28 +0000
Subject: [PATCH 19/38] fix: take characters such as + ( | literally in EQ and
 NEQ conditions

---
 MAPL_engine/string_utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 3c2c5a6..6b6aece 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -42,7 +42,8 @@ func RemoveDotQuotes(str string) string {
 	return strOut
 }
 
-var wildcardsToRegex = strings.NewReplacer(".", "[.]", "$", "\\$", "^", "\\^", "*", ".*", "?", ".", "/", "\\/")
+var wildcardsToRegex = strings.NewReplacer(".", "[.]", "$", "\\$", "^", "\\^", "*", ".*", "?", ".", "/", "\\/",
+	"\\", "\\\\", "+", "\\+", "|", "\\|", "(", "\\(", ")", "\\)", "[", "\\[", "]", "\\]", "{", "\\{", "}", "\\}")
 
 // convertStringToRegex function converts one string to regex. Remove spaces, handle special characters and wildcards.
 func ConvertStringToRegex(str_in, method string) string {
-- 
2.43.0


From 645c7ab81dfca44fc44d9a9ec7496e9f3d04d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 21:57:25 +0000
Subject: [PATCH 20/38] fix: keep the resource type of messages which are
 neither HTTP nor TCP

---
 MAPL_engine/messages_load.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/MAPL_engine/messages_load.go b/MAPL_engine/messages_load.go
index b7045d9..2d19268 100644
--- a/MAPL_engine/messages_load.go
+++ b/MAPL_engine/messages_load.go
@@ -75,7 +75,6 @@ func AddResourceType(message *MessageAttributes) {
 	// add resource_type by the resource_protocol
 	// we have resource_type to allow for several types per one protocol.
 	//
-	message.ContextType = ""
 	switch message.ContextProtocol { // these are the only protocols we currently support
 	case "HTTP", "http":
 		message.ContextType = "path"
-- 
2.43.0


From a77555d95c5dbed73b134b194832e44cf97f650e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:27:27 +0000
Subject: [PATCH 21/38] fix: compare the same text of arrays and objects in
 both document forms

---
 MAPL_engine/check.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index 4b40773..e7d7523 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -2,6 +2,7 @@
 package MAPL_engine
 
 import (
+	"bytes"
 	"encoding/json"
 	"errors"
 	"fmt"
@@ -664,8 +665,7 @@ func testJsonPathConditionOnInterface(c *Condition, message *MessageAttributes)
 	case float64:
 		valueToCompareString = strconv.FormatFloat(v, 'f', -1, 64) // as written in the document and not 1e+06
 	case map[string]interface{}, []interface{}:
-		jsonBytes, _ := json.Marshal(valueToCompareInterface)
-		valueToCompareString = string(jsonBytes)
+		valueToCompareString = getTextOfDecodedValue(valueToCompareInterface)
 	default:
 		valueToCompareString = fmt.Sprintf("%v", valueToCompareInterface)
 	}
@@ -800,13 +800,27 @@ func getTextOfRawValue(raw []byte) (string, bool) {
 			return str, true
 		}
 	case '[', '{':
-		raw = pretty.Ugly(raw)
+		var value interface{}
+		if err := json.Unmarshal(raw, &value); err == nil {
+			return getTextOfDecodedValue(value), false
+		}
 	case 'n':
 		return "", false
 	}
 	return string(raw), false
 }
 
+// getTextOfDecodedValue returns the text of an array or an object (without spaces and with sorted keys)
+func getTextOfDecodedValue(value interface{}) string {
+	buffer := &bytes.Buffer{}
+	encoder := json.NewEncoder(buffer)
+	encoder.SetEscapeHTML(false)
+	if err := encoder.Encode(value); err != nil {
+		return ""
+	}
+	return strings.TrimSuffix(buffer.String(), "\n")
+}
+
 func getKeyValue(jsonRaw []byte, attribute string) ([]byte, error) {
 	//used only with byte array raw data. for interface raw data we use another method.
 	valueToCompareBytes := []byte{}
-- 
2.43.0


From df2ea0e2208745791a9aa55e9008fc66ff3a5115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:40:49 +0000
Subject: [PATCH 22/38] fix: reject conditions of the wrong type with an error
 instead of a panic

---
 MAPL_engine/conditions_tree.go  | 45 ++++++++++++++++++++++++++++-----
 MAPL_engine/definitions_rule.go | 29 +++++++++++++++++++++
 2 files changed, 67 insertions(+), 7 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index a81ea9e..afb34e2 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -747,7 +747,10 @@ func InterpretNode(node interface{}, parentString string) (Node, error) {
 
 func handleMapInterfaceInterface(v map[interface{}]interface{}, parentString string) (Node, error) {
 
-	v2 := mapInterfaceToMapString(v)
+	v2, err := mapInterfaceToMapString(v)
+	if err != nil {
+		return nil, err
+	}
 	return handleMapStringInterface(v2, parentString)
 
 }
@@ -791,6 +794,10 @@ func handleMapStringInterface(v2 map[string]interface{}, parentString string) (N
 
 func getNodeCondition(v map[string]interface{}, parentString string) (Node, error) {
 
+	err := validateTypesOfConditionFields(v)
+	if err != nil {
+		return nil, err
+	}
 	cond := ReadCondition(v)
 
 	c, err := prepareOneConditionNode(cond) // add regexes etc... and validate the condition
@@ -835,10 +842,14 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 		anyAllNode = &All{}
 	}
 
+	hasCondition := false
 	for key, val := range v2 {
 		switch key {
 		case "parentJsonpathAttribute":
-			parentJsonpathAttribute := val.(string)
+			parentJsonpathAttribute, ok := val.(string)
+			if !ok {
+				return nil, fmt.Errorf("parentJsonpathAttribute is not a string [%v]", val)
+			}
 			if isValidParentJsonpathAttribute(parentJsonpathAttribute) {
 				anyAllNode.SetParentJsonpathAttribute(parentJsonpathAttribute)
 			} else {
@@ -850,14 +861,20 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 			case map[string]interface{}:
 				returnValueJsonpath = val.(map[string]interface{})
 			case map[interface{}]interface{}:
-				returnValueJsonpath = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				returnValueJsonpath, err = mapInterfaceToMapString(val.(map[interface{}]interface{}))
+				if err != nil {
+					return nil, err
+				}
 			default:
 				return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not map[string]interface]", val)
 			}
 
 			returnValueJsonpathMap := map[string]string{}
 			for k, v := range returnValueJsonpath {
-				vString := v.(string)
+				vString, ok := v.(string)
+				if !ok {
+					return nil, fmt.Errorf("invalid returnValueJsonpath [%v is not a string]", v)
+				}
 				if strings.HasPrefix(vString, "jsonpath:$RELATIVE") {
 					returnValueJsonpathMap[k] = vString
 				} else {
@@ -866,6 +883,10 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 				anyAllNode.SetReturnValueJsonpath(returnValueJsonpathMap)
 			}
 		default:
+			if hasCondition {
+				return nil, fmt.Errorf("ANY/ALL node with more than one condition")
+			}
+			hasCondition = true
 			node, err := InterpretNode(val, key) // recursion!
 			if err != nil {
 				return nil, err
@@ -873,6 +894,9 @@ func getAnyAllNode(v2 map[string]interface{}, parentString string) (Node, error)
 			anyAllNode.Append(node)
 		}
 	}
+	if !hasCondition {
+		return nil, fmt.Errorf("ANY/ALL node without a condition")
+	}
 	if anyAllNode.GetParentJsonpathAttribute() == "" {
 		return nil, fmt.Errorf("parentJsonpathAttribute is missing")
 	}
@@ -919,12 +943,16 @@ func isValidParentJsonpathAttribute(parentJsonpathAttribute string) bool {
 	return true
 }
 
-func mapInterfaceToMapString(node map[interface{}]interface{}) map[string]interface{} {
+func mapInterfaceToMapString(node map[interface{}]interface{}) (map[string]interface{}, error) {
 	node_out := make(map[string]interface{})
 	for k, val := range node {
-		node_out[k.(string)] = val
+		key, ok := k.(string)
+		if !ok {
+			return nil, fmt.Errorf("key is not a string [%v]", k)
+		}
+		node_out[key] = val
 	}
-	return node_out
+	return node_out, nil
 }
 
 func getNodeValType(node map[string]interface{}, parentString string) (interface{}, string, error) {
@@ -958,6 +986,9 @@ func handleInterfaceArray(node interface{}, parentString string) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if parentString == "NOT" && len(v2) != 1 {
+		return nil, fmt.Errorf("NOT node needs exactly one condition")
+	}
 	for _, subNode := range v2 {
 		subNode2, err := InterpretNode(subNode, "") // recursion!
 		if err != nil {
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index b433801..88cea3a 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -164,6 +164,35 @@ func ConditionFromConditionNode(c ConditionNode) Condition {
 
 }
 
+// validateTypesOfConditionFields tests that the fields read by ReadCondition have the expected types
+func validateTypesOfConditionFields(v map[string]interface{}) error {
+
+	for k, val := range v {
+		switch k {
+		case "attribute", "Attribute", "method", "Method":
+			if _, ok := val.(string); !ok {
+				return fmt.Errorf("%v in condition is not a string [%v]", k, val)
+			}
+
+		case "returnValueJsonpath", "ReturnValueJsonpath":
+			returnValueJsonpath, _ := val.(map[string]interface{})
+			if val2, ok := val.(map[interface{}]interface{}); ok {
+				var err error
+				returnValueJsonpath, err = mapInterfaceToMapString(val2)
+				if err != nil {
+					return err
+				}
+			}
+			for _, vv := range returnValueJsonpath {
+				if _, ok := vv.(string); !ok {
+					return fmt.Errorf("%v in condition is not a map of strings [%v]", k, val)
+				}
+			}
+		}
+	}
+	return nil
+}
+
 func ReadCondition(v map[string]interface{}) ConditionNode {
 
 	c := ConditionNode{}
-- 
2.43.0


From 479372a8a3504ff998bf3e716b30545f7d4585ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:48:34 +0000
Subject: [PATCH 23/38] fix: escape all strings when conditions are written to
 JSON

---
 MAPL_engine/conditions_tree.go  | 12 ++++++++++--
 MAPL_engine/definitions_rule.go | 21 +++++++++++++++------
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index afb34e2..e311493 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -268,7 +268,11 @@ func (a *Any) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ANY":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath": %v,`, str, string(returnValueJsonpathJson))
@@ -483,7 +487,11 @@ func (a *All) MarshalJSON() ([]byte, error) {
 		returnValueJsonpath = a.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":"%v",`, parentJsonpathAttributeString)
+	parentJsonpathAttributeJson, err := json.Marshal(parentJsonpathAttributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	str := fmt.Sprintf(`{"ALL":{"parentJsonpathAttribute":%v,`, string(parentJsonpathAttributeJson))
 	if len(returnValueJsonpath) > 0 {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
 		str = fmt.Sprintf(`%v"returnValueJsonpath":%v,`, str, string(returnValueJsonpathJson))
diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 88cea3a..875dba9 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -316,8 +316,6 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalAttribute) > 0 {
 		attributeString = c.OriginalAttribute
 	}
-	attributeString = strings.Replace(attributeString, "\\", "\\\\", -1)
-	attributeString = strings.Replace(attributeString, "\"", "\\\"", -1)
 
 	methodString := c.Method
 	if len(c.OriginalMethod) > 0 {
@@ -328,19 +326,30 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	if len(c.OriginalValue) > 0 {
 		valueString = c.OriginalValue
 	}
-	valueString = strings.Replace(valueString, "\\", "\\\\", -1)
-	valueString = strings.Replace(valueString, "\"", "\\\"", -1)
 
 	returnValueJsonpath := c.ReturnValueJsonpath
 	if len(c.ReturnValueJsonpathOriginal) > 0 {
 		returnValueJsonpath = c.ReturnValueJsonpathOriginal
 	}
 
-	str := fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v"}}`, attributeString, methodString, valueString)
+	attributeJson, err := json.Marshal(attributeString)
+	if err != nil {
+		return []byte{}, err
+	}
+	methodJson, err := json.Marshal(methodString)
+	if err != nil {
+		return []byte{}, err
+	}
+	valueJson, err := json.Marshal(valueString)
+	if err != nil {
+		return []byte{}, err
+	}
+
+	str := fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v}}`, string(attributeJson), string(methodJson), string(valueJson))
 
 	if returnValueJsonpath != nil {
 		returnValueJsonpathJson, _ := json.Marshal(returnValueJsonpath)
-		str = fmt.Sprintf(`{"condition":{"attribute":"%v","method":"%v","value":"%v","returnValueJsonpath":%v}}`, attributeString, methodString, valueString, string(returnValueJsonpathJson))
+		str = fmt.Sprintf(`{"condition":{"attribute":%v,"method":%v,"value":%v,"returnValueJsonpath":%v}}`, string(attributeJson), string(methodJson), string(valueJson), string(returnValueJsonpathJson))
 	}
 	return []byte(str), nil
 }
-- 
2.43.0


From 747aaef1a9e70b6e4de6969bca4c4ac5aa129c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:27 +0000
Subject: [PATCH 24/38] fix: do not panic when the strings of a rule without
 conditions are read

---
 MAPL_engine/tools.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MAPL_engine/tools.go b/MAPL_engine/tools.go
index 9a57538..e901df6 100644
--- a/MAPL_engine/tools.go
+++ b/MAPL_engine/tools.go
@@ -158,7 +158,9 @@ func GetRuleStrings(r *Rule) RuleStrings {
 		output.DecisionString = r.Decision
 	}
 
-	output.ConditionsString = r.Conditions.ConditionsTree.String()
+	if r.Conditions.ConditionsTree != nil {
+		output.ConditionsString = r.Conditions.ConditionsTree.String()
+	}
 
 	return output
 }
-- 
2.43.0


From 485051b2919ffd67d8c7f9bdf450ffa248b08adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:58:27 +0000
Subject: [PATCH 25/38] fix: do not panic on relative return values without a
 current element

---
 MAPL_engine/check.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MAPL_engine/check.go b/MAPL_engine/check.go
index e7d7523..2946b98 100755
--- a/MAPL_engine/check.go
+++ b/MAPL_engine/check.go
@@ -373,6 +373,9 @@ func getExtraDataFromInterface(preparedReturnValueJsonpathQueryMap map[string]js
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, preparedQuery := range preparedReturnValueJsonpathQueryMap {
+		if preparedReturnValueJsonpathQueryRelativeFlag[queryName] && message.RequestRawInterfaceRelative == nil {
+			continue // there is no current element
+		}
 		if returnValueJsonpathMap[queryName] == "$*" {
 			if preparedReturnValueJsonpathQueryRelativeFlag[queryName] {
 				extraDataTemp[queryName] = *message.RequestRawInterfaceRelative
@@ -405,6 +408,9 @@ func getExtraDataFromByteArray(returnValueJsonpathMap map[string]string, returnV
 	extraDataTemp := make(map[string]interface{})
 
 	for queryName, queryString := range returnValueJsonpathMap {
+		if returnValueJsonpathQueryRelativeFlag[queryName] && message.RequestJsonRawRelative == nil {
+			continue // there is no current element
+		}
 		var extraDataBytes []byte
 
 		if returnValueJsonpathQueryRelativeFlag[queryName] {
-- 
2.43.0


From 7ce6d30d627b94337a8e50e24ddd136657f8d8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:24:51 +0000
Subject: [PATCH 26/38] fix: keep an empty value of a prepared condition in its
 text and JSON

The value of a method IS condition is rewritten to a regular expression
when the rule is prepared. An empty original value was taken for a missing
one, so the rewritten value was written instead.
---
 MAPL_engine/definitions_rule.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 875dba9..086fa99 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -304,7 +304,7 @@ func (c *Condition) String() string {
 	}
 
 	stringValue := c.Value
-	if len(c.OriginalValue) > 0 {
+	if len(c.OriginalMethod) > 0 { // the original value may be empty
 		stringValue = c.OriginalValue
 	}
 	return fmt.Sprintf("<%v-%v-%v>", stringAttribute, stringMethod, stringValue)
@@ -323,7 +323,7 @@ func (c *Condition) MarshalJSON() ([]byte, error) {
 	}
 
 	valueString := c.Value
-	if len(c.OriginalValue) > 0 {
+	if len(c.OriginalMethod) > 0 { // the original value may be empty
 		valueString = c.OriginalValue
 	}
 
-- 
2.43.0


From 0ec1890e8a245db709f6598b1fa5171f7a025d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:26:09 +0000
Subject: [PATCH 27/38] fix: tell AND and OR without conditions apart in the
 text of a rule

Both were written as "()", so an always true and an always false rule had
the same hash.
---
 MAPL_engine/conditions_tree.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index e311493..99c085e 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -155,6 +155,9 @@ func (a *And) String() string {
 
 func AndOrString(a_nodes []Node, andOrStr string) string {
 
+	if len(a_nodes) == 0 { // AND and OR of nothing are different
+		return "(" + andOrStr + ")"
+	}
 	if len(a_nodes) == 1 {
 		return a_nodes[0].String()
 	}
-- 
2.43.0


From 7f7e265ec0e28331467ebe982a901819dcac9a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:19 +0000
Subject: [PATCH 28/38] fix: do not select documents without the field in Mongo
 queries of NEQ

A NEQ condition is false when the field is missing, as is NRE. The
operator $ne also selects documents without the field.
---
 MAPL_engine/mongo_plugin.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 2a60930..d5d6cef 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -194,7 +194,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 	case "EQ":
 		q = bson.M{field: bson.M{"$eq": valToUse}}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse}}
+		q = bson.M{field: bson.M{"$ne": valToUse, "$exists": true}} // $ne alone selects documents without the field as well
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
-- 
2.43.0


From 13822dbf7dc3e0d0d2572017cbfdf29d4a438894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:29:19 +0000
Subject: [PATCH 29/38] fix: translate parents of ANY and ALL like other fields
 in Mongo queries

With an empty base the field started with a dot, and quoted keys and array
indices were left in the field as written. Such queries select nothing.
---
 MAPL_engine/mongo_plugin.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index d5d6cef..f7bad01 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -67,10 +67,10 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
@@ -97,10 +97,10 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
 	}
-	parentField := strings.Replace(a.ParentJsonpathAttributeOriginal, "jsonpath:$.", base+".", 1)
-	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
-	parentField = strings.Replace(parentField, "[:]", "", -1)
-	parentField = strings.Replace(parentField, "[*]", "", -1)
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	if err != nil {
+		return bson.M{}, []bson.M{}, err
+	}
 
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
@@ -116,6 +116,18 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_all, pipeline, nil
 }
 
+func getParentField(parentJsonpathAttribute string, base string) (string, error) {
+	newBase := ""
+	if len(base) > 0 {
+		newBase = base + "."
+	}
+	parentField := strings.Replace(parentJsonpathAttribute, "jsonpath:$.", newBase, 1)
+	parentField = strings.Replace(parentField, "jsonpath:$RELATIVE.", "", 1)
+	parentField = strings.Replace(parentField, "[:]", "", -1)
+	parentField = strings.Replace(parentField, "[*]", "", -1)
+	return removeQuotes(parentField) // quotes and array indices as in conditions
+}
+
 func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	//see: https://docs.mongodb.com/manual/reference/operator/query/
-- 
2.43.0


From 03dd50a8ca8f63ffbeba5f7d9640b50eac96d9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:16 +0000
Subject: [PATCH 30/38] fix: compare boolean fields in Mongo queries

The value of a condition is always a string, so {"$eq":"true"} was
generated for a condition on a boolean field. It never selects true.
---
 MAPL_engine/mongo_plugin.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index f7bad01..94c350e 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -204,9 +204,17 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 	switch strings.ToUpper(c.Method) {
 	case "EQ":
-		q = bson.M{field: bson.M{"$eq": valToUse}}
+		if c.Value == "true" || c.Value == "false" { // the field may be a boolean or a string
+			q = bson.M{field: bson.M{"$in": []interface{}{c.Value, c.Value == "true"}}}
+		} else {
+			q = bson.M{field: bson.M{"$eq": valToUse}}
+		}
 	case "NEQ", "NE":
-		q = bson.M{field: bson.M{"$ne": valToUse, "$exists": true}} // $ne alone selects documents without the field as well
+		if c.Value == "true" || c.Value == "false" {
+			q = bson.M{field: bson.M{"$nin": []interface{}{c.Value, c.Value == "true"}, "$exists": true}}
+		} else {
+			q = bson.M{field: bson.M{"$ne": valToUse, "$exists": true}} // $ne alone selects documents without the field as well
+		}
 	case "GT":
 		q = bson.M{field: bson.M{"$gt": valToUse}}
 	case "GE":
-- 
2.43.0


From 936631fd8ab4be07a60e9f3d0b9eb656691d5b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:33 +0000
Subject: [PATCH 31/38] fix: match keys and values of the same entry in Mongo
 queries

ANY over the entries of an object was translated to conditions on the
arrays of all keys and all values. With NEQ, NRE or NOT the query
selected documents in which no entry matches instead of those with an entry
that does, and the parent was lost below AND, OR and NOT.
---
 MAPL_engine/mongo_plugin.go | 18 +++++++++---------
 docs/Mongo_Plugin.md        |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index 94c350e..f14cca8 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -7,13 +7,13 @@ import (
 	"strings"
 )
 
-func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 
 	for _, node := range a.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -28,12 +28,12 @@ func (a *And) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_and, pipeline, nil
 }
 
-func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
 	q_array := []bson.M{}
 	pipeline := []bson.M{}
 	for _, node := range o.Nodes {
-		q, pipelineAppend, err := node.ToMongoQuery(base, "", inArrayCounter)
+		q, pipelineAppend, err := node.ToMongoQuery(base, parentString, inArrayCounter)
 		if err != nil {
 			return bson.M{}, []bson.M{}, err
 		}
@@ -48,9 +48,9 @@ func (o *Or) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_or, pipeline, nil
 }
 
-func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
+func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) {
 
-	q, pipeline, err := n.Node.ToMongoQuery(base, "", inArrayCounter)
+	q, pipeline, err := n.Node.ToMongoQuery(base, parentString, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -111,7 +111,7 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	if len(pipeline) == 0 {
 		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
 	} else {
-		q_all = q
+		q_all = bson.M{"addedField." + parentField: bson.M{"$elemMatch": q}} // all conditions are about the same key and value
 	}
 	return q_all, pipeline, nil
 }
@@ -153,7 +153,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		//}
 		subField := strings.Replace(c.OriginalAttribute, "jsonpath:$VALUE", "", 1)
 		addedField := fmt.Sprintf("addedField.%v", parentString)
-		field = fmt.Sprintf("%v.v%v", addedField, subField)
+		field = fmt.Sprintf("v%v", subField)
 
 		addFieldStep := bson.M{"$addFields": bson.M{addedField: bson.M{"$objectToArray": "$" + parentString}}}
 
@@ -171,7 +171,7 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 
 		field0 := parentString
 		field1 := fmt.Sprintf("addedField.%v", field0)
-		field = fmt.Sprintf("%v.k", field1)
+		field = "k"
 
 		addFieldStep := bson.M{"$addFields": bson.M{field1: bson.M{"$objectToArray": "$" + field0}}}
 
diff --git a/docs/Mongo_Plugin.md b/docs/Mongo_Plugin.md
index a164fcc..26d2501 100644
--- a/docs/Mongo_Plugin.md
+++ b/docs/Mongo_Plugin.md
@@ -80,7 +80,7 @@ Mongo **Aggregate** query =
 ```
   [ 
      {"$addFields":{"addedField.raw.metadata.labels":{"$objectToArray":"$raw.metadata.labels"}}},
-     {"$match":{"addedField.raw.metadata.labels.v":{"$eq":"ABC"}}} 
+     {"$match":{"addedField.raw.metadata.labels":{"$elemMatch":{"v":{"$eq":"ABC"}}}}} 
    ]
 ```
 
-- 
2.43.0


From 3a5ff2ba9c3e08bfd681288bc1dc099d05632d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:32:57 +0000
Subject: [PATCH 32/38] fix: report conditions that cannot be translated to
 Mongo queries

Absolute paths within ANY and ALL, relative paths outside of them and paths
without a field name produced queries on fields that do not exist.
---
 MAPL_engine/mongo_plugin.go | 51 +++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index f14cca8..e8df1ef 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,17 +61,15 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
-		inArrayCounter += 1
-	}
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
-		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
-	}
-	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
 
+	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+		inArrayCounter += 1
+	}
+
 	q, pipeline, err := a.Node.ToMongoQuery(base, "", inArrayCounter+1)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
@@ -90,18 +88,15 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
-	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
-		inArrayCounter += 1
-	}
-
-	if strings.HasPrefix(a.ParentJsonpathAttributeOriginal, "jsonpath:$..") {
-		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
-	}
-	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base)
+	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
 
+	if strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[:]") || strings.HasSuffix(a.ParentJsonpathAttributeOriginal, "[*]") {
+		inArrayCounter += 1
+	}
+
 	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
@@ -116,7 +111,20 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	return q_all, pipeline, nil
 }
 
-func getParentField(parentJsonpathAttribute string, base string) (string, error) {
+func getParentField(parentJsonpathAttribute string, base string, inArrayCounter int) (string, error) {
+	if strings.Contains(parentJsonpathAttribute, "..") {
+		return "", fmt.Errorf("deepscan is not supported")
+	}
+	isRelative := strings.HasPrefix(parentJsonpathAttribute, "jsonpath:$RELATIVE.")
+	if !isRelative && !strings.HasPrefix(parentJsonpathAttribute, "jsonpath:$.") {
+		return "", fmt.Errorf("jsonpath is not supported [%v]", parentJsonpathAttribute)
+	}
+	if isRelative && inArrayCounter == 0 {
+		return "", fmt.Errorf("relative jsonpath outside of ANY/ALL is not supported")
+	}
+	if !isRelative && inArrayCounter > 0 {
+		return "", fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+	}
 	newBase := ""
 	if len(base) > 0 {
 		newBase = base + "."
@@ -138,6 +146,13 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
 
+	if inArrayCounter > 0 && strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
+	}
+	if inArrayCounter == 0 && c.AttributeIsJsonpathRelative {
+		return bson.M{}, []bson.M{}, fmt.Errorf("relative jsonpath outside of ANY/ALL is not supported")
+	}
+
 	var field string
 	if strings.HasPrefix(c.OriginalAttribute, "jsonpath:$RELATIVE") {
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$RELATIVE.", "", 1)
@@ -187,6 +202,10 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		field = strings.Replace(c.OriginalAttribute, "jsonpath:$.", newBase, 1)
 	}
 
+	if field == "" || strings.HasPrefix(field, "jsonpath:") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("jsonpath is not supported [%v]", c.OriginalAttribute)
+	}
+
 	field, err := removeQuotes(field)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
-- 
2.43.0


From b7d26d6e6ceda23da76338b29cee1b7ca5aa8512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:03 +0000
Subject: [PATCH 33/38] fix: translate lists of parents to Mongo queries

A parent may be a list of paths. The list was used as the name of one
field, which selects nothing for ANY and everything for ALL.
---
 MAPL_engine/mongo_plugin.go | 46 ++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index e8df1ef..ecd0e76 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -61,7 +61,7 @@ func (n *Not) ToMongoQuery(base string, parentString string, inArrayCounter int)
 }
 
 func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
-	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
+	parentFields, err := getParentFields(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -79,8 +79,11 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 	}
 
 	q_not := bson.M{"$nor": []bson.M{q}}
-	q_all_not := bson.M{parentField: bson.M{"$elemMatch": q_not}}
-	q_not_all_not := bson.M{"$nor": []bson.M{q_all_not}} // all == not(any(not(conditions))
+	q_all_not := []bson.M{}
+	for _, parentField := range parentFields {
+		q_all_not = append(q_all_not, bson.M{parentField: bson.M{"$elemMatch": q_not}})
+	}
+	q_not_all_not := bson.M{"$nor": q_all_not} // all == not(any(not(conditions))
 
 	return q_not_all_not, pipeline, nil
 
@@ -88,7 +91,7 @@ func (a *All) ToMongoQuery(base string, parentString string, inArrayCounter int)
 
 func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int) (bson.M, []bson.M, error) { //parentString is irrelevant here
 
-	parentField, err := getParentField(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
+	parentFields, err := getParentFields(a.ParentJsonpathAttributeOriginal, base, inArrayCounter)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
@@ -97,18 +100,39 @@ func (a *Any) ToMongoQuery(base string, parentString string, inArrayCounter int)
 		inArrayCounter += 1
 	}
 
-	q, pipeline, err := a.Node.ToMongoQuery(base, parentField, inArrayCounter+1)
+	q, pipeline, err := a.Node.ToMongoQuery(base, parentFields[0], inArrayCounter+1)
 	if err != nil {
 		return bson.M{}, []bson.M{}, err
 	}
 
-	var q_all bson.M
-	if len(pipeline) == 0 {
-		q_all = bson.M{parentField: bson.M{"$elemMatch": q}}
-	} else {
-		q_all = bson.M{"addedField." + parentField: bson.M{"$elemMatch": q}} // all conditions are about the same key and value
+	if len(pipeline) != 0 {
+		if len(parentFields) > 1 {
+			return bson.M{}, []bson.M{}, fmt.Errorf("KEY/VALUE of a list of parents is not supported")
+		}
+		q_all := bson.M{"addedField." + parentFields[0]: bson.M{"$elemMatch": q}} // all conditions are about the same key and value
+		return q_all, pipeline, nil
+	}
+
+	q_array := []bson.M{}
+	for _, parentField := range parentFields {
+		q_array = append(q_array, bson.M{parentField: bson.M{"$elemMatch": q}})
+	}
+	if len(q_array) == 1 {
+		return q_array[0], pipeline, nil
+	}
+	return bson.M{"$or": q_array}, pipeline, nil
+}
+
+func getParentFields(parentJsonpathAttribute string, base string, inArrayCounter int) ([]string, error) {
+	parentFields := []string{}
+	for _, parent := range strings.Split(strings.TrimPrefix(parentJsonpathAttribute, "jsonpath:"), ",") {
+		parentField, err := getParentField("jsonpath:"+parent, base, inArrayCounter)
+		if err != nil {
+			return []string{}, err
+		}
+		parentFields = append(parentFields, parentField)
 	}
-	return q_all, pipeline, nil
+	return parentFields, nil
 }
 
 func getParentField(parentJsonpathAttribute string, base string, inArrayCounter int) (string, error) {
-- 
2.43.0


From 48c9f206b08c63a9f0260fa8e1eeed1308f6ab8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:03 +0000
Subject: [PATCH 34/38] fix: report deep scans in conditions when translating
 to Mongo queries

The dots were taken for one, so a field at the top was used.
---
 MAPL_engine/mongo_plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MAPL_engine/mongo_plugin.go b/MAPL_engine/mongo_plugin.go
index ecd0e76..8e293f0 100644
--- a/MAPL_engine/mongo_plugin.go
+++ b/MAPL_engine/mongo_plugin.go
@@ -170,6 +170,9 @@ func (c *Condition) ToMongoQuery(base string, parentString string, inArrayCounte
 		return bson.M{}, []bson.M{}, fmt.Errorf("attribute is not a jsonpath")
 	}
 
+	if strings.Contains(c.OriginalAttribute, "..") {
+		return bson.M{}, []bson.M{}, fmt.Errorf("deepscan is not supported")
+	}
 	if inArrayCounter > 0 && strings.HasPrefix(c.OriginalAttribute, "jsonpath:$.") {
 		return bson.M{}, []bson.M{}, fmt.Errorf("absolute jsonpath within ANY/ALL is not supported")
 	}
-- 
2.43.0


From e5ec6c7e655fdfb1fc85591d28356ae49dc92e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:28:25 +0000
Subject: [PATCH 35/38] fix: keep numbers in condition values as written

---
 MAPL_engine/definitions_rule.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MAPL_engine/definitions_rule.go b/MAPL_engine/definitions_rule.go
index 086fa99..988dafa 100644
--- a/MAPL_engine/definitions_rule.go
+++ b/MAPL_engine/definitions_rule.go
@@ -8,6 +8,7 @@ import (
 	dc "gopkg.in/getlantern/deepcopy.v1"
 	"net"
 	"regexp"
+	"strconv"
 	"strings"
 )
 
@@ -206,6 +207,9 @@ func ReadCondition(v map[string]interface{}) ConditionNode {
 
 		case "value", "Value":
 			c.Value = fmt.Sprintf("%v", val) // to avoid interface interpreted as int which causes panic
+			if valFloat, ok := val.(float64); ok {
+				c.Value = strconv.FormatFloat(valFloat, 'f', -1, 64) // 1000000 and not 1e+06
+			}
 
 		case "returnValueJsonpath", "ReturnValueJsonpath":
 			c.ReturnValueJsonpath = make(map[string]string)
-- 
2.43.0


From 168cbe18056c12327df02bbf983bdfdecd2b62ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:31:22 +0000
Subject: [PATCH 36/38] fix: read empty conditions as no conditions in YAML too

---
 MAPL_engine/conditions_tree.go | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/MAPL_engine/conditions_tree.go b/MAPL_engine/conditions_tree.go
index 99c085e..f70d7ad 100755
--- a/MAPL_engine/conditions_tree.go
+++ b/MAPL_engine/conditions_tree.go
@@ -25,6 +25,10 @@ func (c *ConditionsTree) UnmarshalYAML(unmarshal func(interface{}) error) error
 	if err := unmarshal(&aux); err != nil {
 		return err
 	}
+	if isEmptyConditions(aux) {
+		c.ConditionsTree = nil
+		return nil
+	}
 	var n Node
 	n, err := ParseConditionsTree(aux)
 	if err != nil {
@@ -38,21 +42,14 @@ func (c *ConditionsTree) UnmarshalYAML(unmarshal func(interface{}) error) error
 
 func (c *ConditionsTree) UnmarshalJSON(data []byte) error {
 
-	if len(data) == 2 {
-		if data[0] == '{' && data[1] == '}' {
-			c.ConditionsTree = nil
-			return nil
-		}
-		if data[0] == '[' && data[1] == ']' {
-			c.ConditionsTree = nil
-			return nil
-		}
-	}
-
 	var aux interface{}
 	if err := json.Unmarshal(data, &aux); err != nil {
 		return err
 	}
+	if isEmptyConditions(aux) {
+		c.ConditionsTree = nil
+		return nil
+	}
 	var n Node
 	n, err := ParseConditionsTree(aux)
 	if err != nil {
@@ -64,6 +61,21 @@ func (c *ConditionsTree) UnmarshalJSON(data []byte) error {
 
 }
 
+// isEmptyConditions tells if the conditions are empty (null, {} or []), that is, the rule has no conditions
+func isEmptyConditions(aux interface{}) bool {
+	switch v := aux.(type) {
+	case nil:
+		return true
+	case map[string]interface{}:
+		return len(v) == 0
+	case map[interface{}]interface{}:
+		return len(v) == 0
+	case []interface{}:
+		return len(v) == 0
+	}
+	return false
+}
+
 // UnmarshalBSON implements driverBson.Unmarshal.
 // we actually use the json unmarshaller
 func (c *ConditionsTree) UnmarshalBSON(data []byte) error {
-- 
2.43.0


From 3aa42ea76269ad923a8848a24d7c274954e7289d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:48 +0000
Subject: [PATCH 37/38] fix: ignore spaces around subnet entries

Lists of names ignore spaces around their items, but a list of subnets with a
space after a comma was refused.
---
 MAPL_engine/string_utils.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index 6b6aece..f7b8717 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -90,6 +90,8 @@ func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]Exp
 		//e.IsIP,e.IsCIDR,e.IP,e.CIDR=isIpCIDR(str)
 		e.Type = type_in
 		if type_in == "subnet" {
+			str = strings.TrimSpace(str)
+			e.Name = str
 			if str == "*" {
 				str = "0.0.0.0/0"
 			}
-- 
2.43.0


From 48fa0ce570a566072c02fe366febba3d22a00638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:11:48 +0000
Subject: [PATCH 38/38] fix: let wildcards match newlines

A "*" in a name, path or string condition did not match text that contains a
newline, so a rule for "/admin*" did not apply to the path "/admin\n".
---
 MAPL_engine/string_utils.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MAPL_engine/string_utils.go b/MAPL_engine/string_utils.go
index f7b8717..4172982 100644
--- a/MAPL_engine/string_utils.go
+++ b/MAPL_engine/string_utils.go
@@ -52,13 +52,13 @@ func ConvertStringToRegex(str_in, method string) string {
 
 	switch method {
 	case "EQ", "eq", "NEQ", "neq", "NE", "ne": // the value is not a list but it may contain wildcards
-		str_out = "^" + wildcardsToRegex.Replace(str_in) + "$"
+		str_out = "(?s)^" + wildcardsToRegex.Replace(str_in) + "$" // wildcards also stand for newlines
 	}
 
 	if method == "IN" || method == "NIN" || method == "WithWildcards" { // We try to convert to a list only in case of IN or NIN
 		str_list := strings.Split(str_in, ",")
 
-		str_out = "("
+		str_out = "(?s)(" // wildcards also stand for newlines
 		L := len(str_list)
 
 		for i_str, str := range str_list {
@@ -107,7 +107,7 @@ func ConvertStringToExpandedSenderReceiver(str_in string, type_in string) ([]Exp
 		str = strings.Replace(str, "*", ".*", -1)
 		str = strings.Replace(str, "?", ".", -1)
 		str = strings.Replace(str, "/", "\\/", -1)
-		str = "^" + str + "$" // force full string
+		str = "(?s)^" + str + "$" // force full string. wildcards also stand for newlines
 
 		re, err := regexp.Compile(str)
 		if err != nil {
-- 
2.43.0

