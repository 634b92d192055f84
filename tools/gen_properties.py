#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
E = "MAPL_engine/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": [E + f for f in files],
         "mechanism": [{"name": n, "where": E + w} for n, w in mech],
         "observe_at": observe, "hook_needed": False}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": E + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The most restrictive applicable rule decides a message",
 "For every message and rule list, the overall decision is the most restrictive one (block over alert over allow over default) among the decisions the rules give individually, and an empty or non-matching list gives default. "
 "The per-rule results equal what each rule gives on its own and in its own position, the applied-rule list is exactly the positions with a non-default result in ascending order, and the relevant rule is the first one that reaches the overall decision (-1 if none). "
 "The decision text and the rule description reported belong to that decision and that rule.",
 ["inputs", "configurations"], "every list of up to 3 rules in every order, with any decision spelling, any matching pattern and any descriptions",
 "Tests run fixed rule files and look at the overall decision; they do not range over orders, ties, and combinations of the reported indices and descriptions.",
 ["check.go"], [("combine per-rule results", "check.go:Check"), ("one rule", "check.go:CheckOneRule")],
 ["return values of Check for a message and rules"])
prop("C02", "A rule applies exactly when every one of its parts matches",
 "A rule gives its decision for a message exactly when the sender, the receiver, the operation, the protocol and resource, and the conditions all match, and gives default otherwise. "
 "The protocol comparison ignores case, the resource type must be equal unless the rule says '*', a 'tcp' rule tests the destination port, a '*' protocol skips the resource test, and a rule without conditions has that part satisfied. "
 "Decisions spelled in lower, upper or capitalised form are honoured and any other spelling gives default.",
 ["inputs"], "every combination of matching/non-matching parts, protocols, resource types, ports, paths and decision spellings within the stated string bounds",
 "Each test file varies one part at a time; the conjunction over all parts and the protocol special cases is never exercised jointly.",
 ["check.go", "rules_load.go"], [("part-by-part test", "check.go:CheckOneRule"), ("sender/receiver test", "check.go:TestSender,TestReceiver"), ("field preparation", "rules_load.go:ConvertFieldsToRegex")],
 ["result of Check / rule.Check for one rule and one message"])
prop("C03", "Names, paths and operations match as whole-string wildcard lists",
 "A comma-separated pattern list in a sender, receiver, resource or operation field matches a value exactly when at least one item matches the whole value, where '*' stands for any run of characters, '?' for exactly one, and every other permitted character (including '.', '/', '$' and '^') stands for itself, case-sensitively. "
 "Spaces around items do not matter. "
 "The operation words read and write stand for their fixed sets of methods and '*' for every method.",
 ["inputs"], "every pattern list and every value over the documented name alphabet within the length bound",
 "Tests try a handful of literal names; whole-string anchoring, escaping and list splitting must hold for every pattern/value pair.",
 ["string_utils.go", "check.go", "rules_load.go"], [("pattern to matcher", "string_utils.go:ConvertStringToRegex,ConvertStringToExpandedSenderReceiver,ConvertOperationStringToRegex"), ("matching", "check.go:TestSender,TestReceiver,CheckOneRule")],
 ["result of rule.Check"])
prop("C04", "Subnet senders and receivers match addresses arithmetically",
 "For sender or receiver entries of type subnet, an address entry matches exactly that address, a CIDR entry matches exactly the addresses that agree with it on the prefix bits, and '*' matches every IPv4 address. "
 "A list matches when any item does (spaces around items do not matter), the sender entry is compared only with the source address and the receiver entry only with the destination address. "
 "An entry that is neither an address nor a CIDR makes rule preparation fail with an error.",
 ["inputs"], "every IPv4 network, every prefix length 0..32, every IPv4 address, and lists of up to seven entries",
 "Tests use a few fixed addresses; 2^32 networks times 33 prefixes times 2^32 addresses are out of reach of examples.",
 ["string_utils.go", "tools.go", "check.go", "messages_load.go"], [("classify entry", "tools.go:isIpCIDR"), ("expand list", "string_utils.go:ConvertStringToExpandedSenderReceiver"), ("match", "check.go:TestSender,TestReceiver"), ("parse message address", "messages_load.go:AddNetIpToMessage")],
 ["result of rule.Check on messages with loaded addresses; error of rule preparation"])
prop("C05", "AND, OR and NOT trees evaluate as Boolean algebra at any nesting",
 "The result of a conditions tree built from AND, OR and NOT equals the Boolean value of the formula it spells, whatever the nesting, the number and order of the operands and the truth values of its leaves. "
 "Writing the tree with the optional condition, conditions or conditionsTree keywords or as a one-element list does not change the result, and the same tree read from JSON-like or YAML-like decoded input gives the same result. "
 "An AND of nothing is true and an OR of nothing is false.",
 ["programs", "inputs"], "every AND/OR/NOT tree within the shape bound, every truth assignment of its leaves, both decoded map forms",
 "Tests contain a few fixed trees with a few documents each; the tree shape is a program and the assignment is exponential.",
 ["conditions_tree.go"], [("evaluation", "conditions_tree.go:And.Eval,Or.Eval,Not.Eval"), ("parsing", "conditions_tree.go:InterpretNode")],
 ["ParseConditionsTree and evaluation result"])
prop("C06", "ANY means some element and ALL means every element, at any nesting",
 "An ANY node is true exactly when at least one element selected by its path satisfies the inner conditions, and an ALL node exactly when every selected element does, so ALL of nothing is true and ANY of nothing is false. "
 "Relative paths inside refer to the current element of the innermost enclosing ANY/ALL, absolute paths always refer to the whole document, and after an inner ANY/ALL the enclosing element is current again. "
 "$KEY and $VALUE refer to the key and value of the current entry of an object, and NOT ALL c is always equivalent to ANY NOT c.",
 ["programs", "inputs"], "documents with up to 3 elements (arrays or objects) and up to two levels of inner arrays, symbolic field values, nested and consecutive ANY/ALL, comma-separated and deep-scan parents",
 "Fixed documents cannot cover the number and position of satisfying elements, nesting and restoration of the enclosing element.",
 ["conditions_tree.go", "check.go"], [("evaluation", "conditions_tree.go:evalAnyRawInterface,evalAnyRawBytes,evalAllRawInterface,evalAllRawBytes"), ("element selection", "check.go:getArrayOfInterfaces,getArrayOfJsons,ArrangeArrayInterface"), ("key/value", "check.go:getKeyValue,getKeyValueFromInterface")],
 ["evaluation result of a rule's conditions on a message with a document"],
 [("current element", "element that relative paths refer to", "definitions_message.go:MessageAttributes")])
prop("C07", "Numeric conditions compare numbers exactly as written, including units",
 "A numeric condition on the payload size, time of day, encryption version or a document field holds exactly when the mathematical comparison named by its method (equal, not equal, less, less-or-equal, greater, greater-or-equal) holds between the message value and the condition value. "
 "A decimal (K..E, e3..e18), binary (Ki..Ei), milli or percent suffix multiplies the number before it by its factor, in the condition value and in the document alike. "
 "Lower-case and upper-case method names mean the same, and complementary methods never agree on two numbers.",
 ["inputs"], "every 64-bit size, every float time/version, every decimal numeral within the digit bound with every unit, every numeric method",
 "Tests try one or two numbers per method; boundary and unit errors hide in the untested values.",
 ["check.go", "string_utils.go", "rules_load.go"], [("comparison", "check.go:compareIntFunc,compareFloatFunc"), ("units", "string_utils.go:convertStringWithUnits"), ("condition value", "rules_load.go:ConvertConditionStringToIntFloatRegex")],
 ["evaluation result of a single-condition rule"])
prop("C08", "String conditions on message attributes and labels follow their method",
 "For user agent, encryption type, domain, namespaces, clusters and labels, EQ holds exactly when the whole attribute matches the condition value (whose * and ? are wildcards and whose other characters stand for themselves), RE exactly when the regular expression finds a match, IN/IS exactly when the attribute is one of the listed values, and EX exactly when the attribute is present. "
 "NEQ/NE, NRE, NIN and NEX are the exact complements on an attribute that is present; on a label the message does not carry NEX is true and every other method is false. "
 "A sender label or sender attribute compared with a receiver label or receiver attribute is compared literally, and sender attributes are never confused with receiver attributes.",
 ["inputs"], "every attribute, every method in both letter cases, every value and attribute string within the length bound over a stated alphabet",
 "Attribute x method x value is a product of which tests touch a few points; swapped fields or missing negations survive on untested pairs.",
 ["check.go", "rules_load.go", "string_utils.go"], [("dispatch", "check.go:testOneCondition"), ("labels and attributes", "check.go:testSenderLabelCondition,testReceiverLabelCondition,testSenderAttributeCondition,testReceiverAttributeCondition,getAttribute"), ("comparison", "check.go:compareStringWithWildcardsFunc,compareRegexFunc,compareStringFunc")],
 ["evaluation result of a single-condition rule"])
prop("C09", "Document conditions read the addressed field and follow their method",
 "A condition on a document path is decided by the value at exactly that path: EQ/NEQ compare the text of the value literally (as numbers if both are numbers), RE/NRE search it with the regular expression, IN/NIN test membership in the list, EX/NEX test whether a non-empty value is present. "
 "If the path is absent or its value is null or empty, every method except NEX gives false and NEX gives true. "
 "Bracketed, quoted and dotted spellings of the same path are interchangeable.",
 ["inputs"], "documents with a present/absent/null/empty/string/number/boolean field and siblings, every method, every value within the length bound, path spellings",
 "Tests check a few documents per method; presence x type x method x value is not covered.",
 ["check.go", "string_utils.go", "rules_load.go"], [("document test", "check.go:testJsonPathCondition,testJsonPathConditionOnInterface"), ("path normalisation", "rules_load.go:handleJsonpathAttribute; string_utils.go:RemoveDotQuotes"), ("value text", "string_utils.go:removeQuotesAndBrackets,removeQuotesFromResult")],
 ["evaluation result of a single-condition rule on a document"])
prop("C10", "Raw-bytes and decoded documents give the same answer",
 "For the same JSON document and the same conditions, evaluating on the raw bytes and evaluating on the decoded document give the same truth value. "
 "When both forms are supplied the answer is also the same.",
 ["inputs", "programs"], "documents and conditions (single, ANY/ALL, nested, key/value) within bounds, both forms of message",
 "The two evaluation paths share no code for path lookup; tests compare them only on the fixture files.",
 ["check.go", "conditions_tree.go"], [("bytes path", "check.go:testJsonPathCondition,getArrayOfJsons,getKeyValue"), ("decoded path", "check.go:testJsonPathConditionOnInterface,getArrayOfInterfaces,getKeyValueFromInterface")],
 ["evaluation results for two messages that differ only in the document form"])
prop("C11", "Evaluation is repeatable and leaves rule and message untouched",
 "Evaluating a rule on a message gives the same result however many evaluations of any rules and messages went before, and does not depend on map iteration order. "
 "It changes neither the rule's own fields nor the message, including the current-element state, nor the predefined strings and lists. "
 "Evaluating a rule alone or as part of a larger tree, before or after other rules on the same message, gives the same truth value.",
 ["histories", "inputs"], "all sequences of up to 3 evaluations over 2 rules and 2 messages (with ANY/ALL, references, documents), every order of small maps while evaluating, insertion and reverse order while reading",
 "A test sees one history and one map order per run; leaked state only shows in specific sequences.",
 ["check.go", "conditions_tree.go", "rules_load.go"], [("preparation on a copy", "rules_load.go:SetPredefinedStringsAndLists"), ("current element save/restore", "conditions_tree.go:evalAny*,evalAll*"), ("per-rule evaluation", "check.go:Check,CheckOneRule,TestConditions")],
 ["results of repeated Check/TestConditions calls; exported fields of rule and message afterwards"])
prop("C12", "A reference to a predefined string or list means its literal content",
 "A rule whose sender name, receiver name or condition value (of any method but the ordering comparisons) is '#name' behaves exactly like the same rule with the predefined list (comma-separated, or alternatives for a regular expression) or predefined string written in its place, a list taking precedence over a string of the same name. "
 "References inside lists are replaced by the strings they name, and a reference to an undefined name is reported as an error and never silently accepted. "
 "The rule itself keeps the reference, so supplying different definitions later takes full effect.",
 ["inputs", "histories"], "all small sets of definitions with symbolic names and contents, all reference positions, sequences of two definition sets",
 "Tests use one definition file; name clashes, missing names and redefinition order are not covered.",
 ["rules_load.go", "predefined_lists_load.go"], [("lookup and substitution", "rules_load.go:ReplaceStringsAndListsInOneRule,ReplaceStringsAndListsInCondition,isReplaceableList,isReplaceableString"), ("list references", "predefined_lists_load.go:validatePredefinedString"), ("copy", "rules_load.go:SetPredefinedStringsAndLists")],
 ["evaluation results; errors of SetPredefinedStringsAndLists / YamlReadStringListsFromString / SetGlobalPredefinedStringsAndLists"])
prop("C13", "Rule hash identifies the rule up to operand order and letter case",
 "Two rules that differ only in the order of AND/OR operands, or in the letter case of decision, sender and receiver types, operation and protocol, have the same text and the same hash; rules that differ in any name, resource, condition attribute, method, value, parent path or in the tree structure (an AND or OR of one condition being that condition) have different texts and hashes. "
 "Description, rule id and having been prepared or evaluated do not influence the hash.",
 ["inputs", "programs"], "all pairs of rules with trees within the shape bound and symbolic leaf strings over a delimiter-free alphabet",
 "The test compares eight fixed rules; it is a statement about all pairs.",
 ["rules_load.go", "conditions_tree.go", "definitions_rule.go"], [("text", "rules_load.go:RuleToString,RuleConditionsToString"), ("operand ordering", "conditions_tree.go:AndOrString"), ("hash", "rules_load.go:RuleMD5Hash,RuleMD5HashConditions")],
 ["RuleToString, RuleMD5Hash, RuleMD5HashConditions, ConditionsEqual"])
prop("C14", "Conditions survive serialisation unchanged",
 "Writing a rule's conditions to JSON or BSON and reading them back gives conditions with the same text that evaluate identically, for every tree, every string content (quotes, backslashes, control characters) and return-value specification, whether or not the rule had been prepared before. "
 "Serialising is possible for every conditions tree that can be read.",
 ["inputs", "programs"], "every tree within the shape bound over all node kinds with symbolic attribute, value, parent path and return-value strings",
 "Round-trip tests use fixture strings without special characters; one unescaped character breaks the copy that every evaluation relies on.",
 ["definitions_rule.go", "conditions_tree.go"], [("writing", "definitions_rule.go:Condition.MarshalJSON; conditions_tree.go:Any.MarshalJSON,All.MarshalJSON,ConditionsTree.MarshalBSON"), ("reading", "conditions_tree.go:ConditionsTree.UnmarshalJSON,UnmarshalBSON,InterpretNode")],
 ["json.Marshal/Unmarshal and MarshalBSON/UnmarshalBSON of the conditions; evaluation results"])
prop("C15", "Malformed conditions are rejected with an error and nothing ever crashes",
 "Reading conditions from any decoded document either yields a usable tree or returns an error; it never panics. "
 "A condition with an unknown attribute or method, a non-numeric value for an ordering method, an invalid regular expression, an unindexed array reference or a malformed label is rejected at load. "
 "Evaluating, printing or translating a rule that was accepted never panics, whatever the message contains or lacks.",
 ["inputs", "programs"], "decoded documents of bounded depth with arbitrary key/value kinds; conditions with symbolic attribute/method/value; messages with any field missing",
 "Crash inputs are found by covering all shapes, not by examples; tests feed mostly well-formed files.",
 ["conditions_tree.go", "validate_conditions.go", "definitions_rule.go", "check.go"], [("parsing", "conditions_tree.go:InterpretNode"), ("validation", "validate_conditions.go:ValidateOneCondition"), ("evaluation", "check.go:testOneCondition")],
 ["error values and absence of panics of ParseConditionsTree, ValidateRule, SetPredefinedStringsAndLists, Check, TestConditions, ToMongoQuery"])
prop("C16", "The generated Mongo query selects what the engine's evaluation accepts",
 "For document conditions outside the documented limitations, on fields which are absent or hold a non-empty value, the query generated for a rule, interpreted by MongoDB's matching rules, selects a document stored under the given base field exactly when evaluating the rule on that document is true. "
 "Constructs that cannot be translated are reported as errors instead of producing a query.",
 ["programs", "inputs"], "trees of AND/OR/NOT/ANY/ALL over comparison, existence and regex conditions within bounds, documents with symbolic field values and presence; keys without dots, strings that do not spell numbers, values without units, elements which are objects",
 "The plugin tests need a running MongoDB and are not run here at all; they also only cover fixture pairs.",
 ["mongo_plugin.go", "rule_mongo_plugin.go"], [("translation", "mongo_plugin.go:*.ToMongoQuery"), ("entry", "rule_mongo_plugin.go:Rule.ToMongoQuery")],
 ["query returned by rule.ToMongoQuery, interpreted by a reference matcher; rule.TestConditions"])
prop("C17", "Return values come from exactly the satisfying elements",
 "An ANY node with return paths yields, when it is true, one entry per satisfying element in element order, holding for every named path the value at that path of that element (the whole element for '*'), and nothing for other elements; a true condition with return paths yields one entry. "
 "NOT and ALL yield no data, OR yields the entries of its true operands in order, a true AND yields the entries of its last operand that has any, and of nested ANY nodes only the outermost counts. "
 "A rule that does not apply yields no data.",
 ["inputs", "programs"], "documents with up to 3 elements and symbolic fields, trees with ANY nodes carrying return paths under AND/OR/NOT",
 "Tests look at the data of a few documents; which elements contribute depends on all subsets of satisfying elements.",
 ["conditions_tree.go", "check.go"], [("collection", "conditions_tree.go:evalAnyRawInterface,evalAnyRawBytes; check.go:getExtraDataFromInterface,getExtraDataFromByteArray"), ("flow", "conditions_tree.go:And.Eval,Or.Eval,Not.Eval")],
 ["extra data returned by Check, rule.Check and TestConditions"])
prop("C18", "Coverage agrees with checking each message against the rules",
 "For every set of messages and rules, the coverage report says for each message the same decision, covering rule ids and their decisions, in rule order, as checking that message does, and counts it covered exactly when the decision is not default. "
 "For each rule id it lists exactly the ids of the messages to which a rule with that id applied, in message order, with an empty list for rules that never applied.",
 ["inputs", "configurations"], "up to 3 messages and 3 rules with symbolic match pattern and decisions",
 "Coverage has no test at all.",
 ["coverage.go", "check.go"], [("report", "coverage.go:Coverage,findNonDefaultDecisions")],
 ["maps returned by Coverage compared with Check"])
prop("C19", "Loaded messages carry the derived attributes of their text",
 "Loading messages derives, for every message independently, the resource type from the protocol (path for HTTP, port for TCP, in either case), the addresses from the address strings, the labels from the label text, and the time of day in UTC, in seconds, minutes and hours, from the timestamp; other protocols keep the resource type written in the message. "
 "A message with an unparsable timestamp makes loading fail with an error.",
 ["inputs"], "lists of up to 2 messages; every clock time, every IPv4 address, every small label set, every protocol spelling",
 "Tests load fixture files with a few timestamps and labels.",
 ["messages_load.go"], [("derivation", "messages_load.go:AddResourceType,AddTimeInfoToMessage,AddNetIpToMessage,parseLabelsJsonOfMessage")],
 ["fields of the messages returned by YamlReadMessagesFromString and of messages passed to the Add* functions"])

prop("C20", "Rules mean the same whether they are read from YAML or from JSON",
 "Reading a list of rules from YAML text, in block or flow style, or from the equivalent JSON text gives the rules of the text in its order, every field holding exactly the text written for it and absent fields being empty. Their conditions have the same text, hash and results however they are read; a number or truth value written without quotes means its decimal text, and empty conditions mean no conditions. "
 "If the conditions of any rule are malformed, or a reference to the definitions given with the text is undefined, reading fails with an error, and rules read together with definitions behave like rules which get the definitions afterwards.",
 ["inputs", "programs"], "lists of up to 3 rules, every field with every text within the length bound, trees of AND/OR/NOT/ANY/ALL within the shape bound, unquoted numbers below 2^53, both YAML styles and JSON",
 "Tests compare a few fixture files; the combinations of fields, styles, conditions and positions of a defect are not covered.",
 ["rules_load.go", "conditions_tree.go", "definitions_rule.go"], [("reading", "rules_load.go:YamlReadRulesFromString,YamlReadRulesFromStringWithPredefinedStrings"), ("conditions", "conditions_tree.go:UnmarshalYAML,UnmarshalJSON"), ("condition fields", "definitions_rule.go:ReadCondition")],
 ["rules returned by YamlReadRulesFromString and YamlReadRulesFromStringWithPredefinedStrings, and by json.Unmarshal into Rules"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
