import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=False,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]="none in /repo: a read-only walk over the live tree compiled against its headers (/verif/player/verify.c)"
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
API="src/betree.h public calls and the returned report"
p("P01","Search returns exactly the expressions that are true for the event",
"For every set of declared attributes, every collection of accepted, well-typed expressions and every well-typed event that supplies all required attributes, a search reports precisely the ids of the expressions that evaluate to true on that event under the documented meaning of the operators. No true expression is missed and no false one is reported, whatever the size and content of the collection.",
["inputs","configurations","histories"],"all attribute declarations, expression collections, insertion sequences and events",
"The answer depends on how hundreds of expressions interact through partitioning, bound inference, short-circuiting and memoization; the tests fix a few small collections with hand-computed answers.",
["src/tree.c","src/ast.c","src/betree.c"],[("candidate collection and evaluation","tree.c betree_search_with_preds / match_be_tree"),("expression evaluation","ast.c match_node"),("bound of an expression","ast.c get_variable_bound")],[API])
p("P02","Index shape, insertion order and tuning never change results",
"The set of reported ids depends only on which expressions were inserted, not on the order of insertion, the positive leaf capacity, the minimum partition size, when searches were interleaved, or how the tree has split. Every inserted expression is reported once per insertion when it matches, even when several insertions share the same id.",
["histories","configurations","inputs"],"all permutations of an insertion history, all positive leaf capacities and partition sizes, including repeated ids",
"Each order and capacity yields a different tree; tests exercise a few shapes with the default parameters and check internal layout rather than equality of answers across layouts.",
["src/tree.c","src/config.c","src/betree.c"],[("space partitioning and clustering","tree.c space_partitioning / space_clustering / insert_be_tree"),("moving expressions between leaves","tree.c move / remove_sub"),("splitting a domain","tree.c split_value_bound / is_atomic")],[API])
p("P03","Undefined attributes follow the documented rules and short-circuiting agrees",
"When an optional attribute is absent from an event, every test of its value is false (including not-in and none-of), 'is null' is true, 'is not null' and 'is empty' are false, and negation, conjunction and disjunction combine these results in the ordinary two-valued way. Deciding an expression early from the set of undefined attributes never gives a result different from evaluating it.",
["inputs"],"all expressions over optional attributes with any nesting of and/or/not, and all subsets of undefined attributes",
"The number of combinations of nesting and undefined subsets is exponential; tests try a handful of shapes, mostly without negation around and/or.",
["src/tree.c","src/ast.c","src/var.c"],[("early decision per expression","tree.c short_circuit_for_node / try_short_circuit"),("undefined handling","ast.c match_*_expr, var.c get_*_var")],[API])
p("P04","Sharing sub-expressions between subscriptions never changes an answer",
"The answer for each expression is the same when it is alone in a tree and when it is stored with any number of other expressions that repeat, resemble or contain its sub-expressions. A remembered sub-result is reused only for a sub-expression of identical meaning and only within the search that computed it.",
["inputs","histories"],"all collections of expressions with equal and nearly equal sub-expressions, and all sequences of events",
"A wrong identification of two different predicates only shows when both occur in one tree and the event separates them; tests check ids for a few pairs.",
["src/hashmap.c","src/ast_compare.c","src/jsw_rbtree.c","src/memoize.c","src/ast.c"],[("predicate ordering","ast_compare.c expr_cmp"),("predicate registry","hashmap.c assign_pred, jsw_rbtree.c"),("result reuse","ast.c match_node_inner, memoize.c")],[API])
p("P05","Exists answers yes exactly when a search would report something",
"For every tree and every well-typed event, the existence query, in both its text and its programmatic form, returns true if and only if a search with the same event succeeds and reports at least one id. In particular it answers no when a required attribute is missing.",
["inputs","histories"],"all trees and all events, including events that miss required attributes",
"The existence query has its own traversal and stop condition; tests call it on two or three events.",
["src/tree.c","src/betree.c"],[("existence traversal","tree.c betree_exists_with_preds"),("entry points","betree.c betree_exists / betree_exists_with_event")],[API])
p("P06","Queries are repeatable and do not change the tree or the event",
"Searching or testing existence any number of times, in any order and with any events, never changes the answer of a later query: the same event always gives the same set of ids and the same success value. A programmatic event object can be used again, also against the same tree after more insertions, and still denotes the same values.",
["histories","inputs"],"all interleavings of searches, existence queries and insertions, with event objects reused",
"State leaking from one query to the next shows only in particular sequences; tests search once or twice per tree.",
["src/tree.c","src/betree.c","src/value.c"],[("per-search state","tree.c betree_search_with_preds make_memoize/make_undefined"),("event normalisation","tree.c fill_event / sort_event_lists, value.c sort_and_remove_duplicate_*")],[API])
p("P07","Text events and programmatic events mean the same thing",
"For every event, writing it as text and building it through the programmatic interface give the same success value and the same set of matching ids, and the order of attributes, white space, quoting style, explicit null entries and an integer spelling of a whole-number float make no difference.",
["inputs"],"all well-typed events over all attribute types, in all equivalent textual layouts",
"The two paths use different parsers and constructors for nine types; tests parse a few literals.",
["src/event_lexer.l","src/event_parser.y","src/betree.c","src/tree.c"],[("event text parsing","event_parser.y, event_lexer.l"),("programmatic construction","betree.c betree_make_*_variable"),("event completion","tree.c fill_event")],[API])
p("P08","An event without a required attribute is refused cleanly",
"If an event lacks any attribute declared as required, a search returns failure and reports no id, for every tree content; if it supplies all required attributes, the search returns success. Optional attributes may be absent in any combination without causing refusal.",
["inputs","configurations"],"all declarations of required and optional attributes and all subsets of attributes present",
"The check must hold for every subset of attributes and position among many declarations; tests cover one missing attribute.",
["src/betree.c","src/tree.c"],[("event validation","tree.c validate_variables, betree.c betree_search_with_event_filled")],[API])
p("P09","Invalid expressions are refused without harming the tree",
"An expression that does not parse completely, mentions an undeclared attribute, or applies an operator or function to an attribute of an unsuitable type is refused with a failure result by every way of inserting it or of adjusting boundaries with it, without terminating the process. After any number of refusals every later query gives the answers it would have given had those expressions never been submitted.",
["inputs","histories"],"all malformed, truncated, mistyped and undeclared-attribute expressions mixed with valid insertions and queries",
"The space of bad inputs is unbounded and the damage may only show in a later query; tests reject a few examples.",
["src/lexer.l","src/parser.y","src/ast.c","src/betree.c"],[("parsing","lexer.l, parser.y, parse()"),("validation","ast.c all_variables_in_config / all_exprs_valid / all_bounded_strings_valid"),("refusal paths","betree.c betree_insert_with_constants / betree_make_sub / betree_change_boundaries")],[API])
p("P10","Expression text has one meaning whatever its spelling",
"Alternative spellings of an expression have the same meaning: word and symbol connectives, single and double quotes, value-first and attribute-first comparisons, attribute names in any letter case when declared in lower case, redundant parentheses and white space, with not binding tighter than and, and and tighter than or. Every operator keeps its documented meaning under these spellings and under logical rewriting such as double negation, De Morgan and commuting operands.",
["inputs"],"all expressions and all their equivalent spellings and logically equivalent rewritings",
"Equivalence over all nestings and spellings is not a finite list; tests parse one form of each construct.",
["src/lexer.l","src/parser.y","src/ast.c"],[("tokens","lexer.l"),("grammar and precedence","parser.y"),("operand reordering","ast.c ast_bool_expr_binary_create / score_node")],[API])
p("P11","List and set operators behave as operators on sets",
"one of, none of, all of, in and not in depend only on the set of values on each side: the order and the repetition of values in the expression's list or in the event's list are irrelevant. For a defined event list, one of means a common value exists, none of that none exists, all of that every listed value is present, and an empty event list has no values.",
["inputs"],"all integer and string lists of any length, order and multiplicity on both sides",
"Correctness depends on sorting, de-duplication and merge loops over arbitrary lists; tests use short sorted lists.",
["src/ast.c","src/value.c"],[("merge loops","ast.c match_all_of_* / match_not_all_of_*"),("sorting and de-duplication","ast.c sort_lists, value.c"),("membership","ast.c d64binary_search / sbinary_search")],[API])
p("P12","Numeric comparison is exact over the full range and outside declared bounds",
"Comparisons, equality and membership on integers are exact for every literal and event value representable with 64-bit signed magnitude, and comparisons on floats follow ordinary ordering for values that differ by more than rounding noise, for every declared domain including tiny, negative, one-point, fractional and enormous ones. Event values and expression constants lying outside the declared domain still compare by value.",
["inputs","configurations"],"all integer and float domains, literals and event values, including extremes and out-of-domain values",
"Edge values interact with domain splitting and bound arithmetic; tests use small domains around zero.",
["src/ast.c","src/tree.c","src/betree.c"],[("bound arithmetic","ast.c get_variable_bound_inner, betree.c compare_simple_bound"),("domain splitting","tree.c split_value_bound / splitable_attr_domain / domain_bound_diff"),("open-ended descent","tree.c is_event_enclosed")],[API])
p("P13","Boundary inference and the two insertion paths never lose a match",
"Adjusting attribute boundaries from expressions, explicitly or implicitly while preparing expressions for batch insertion, at any time and in any order, never changes which expressions match an event. Preparing all expressions first and inserting them afterwards gives the same answers as inserting them directly one by one.",
["histories","inputs","configurations"],"all sequences of boundary adjustments, preparations and insertions over bounded and unbounded domains",
"Boundaries change while the tree already has splits made under other boundaries; tests inspect the boundaries themselves after one expression.",
["src/betree.c","src/tree.c"],[("boundary inference","betree.c change_boundaries / get_simple_variable_bound"),("batch path","betree.c betree_make_sub / betree_insert_sub"),("use of boundaries","tree.c create_pdir / sub_is_enclosed")],[API])
p("P14","Distinct strings and enum values are never confused; capacity is enforced",
"Two string or integer-enum values compare equal only if they are the same text or number and belong to the same attribute; values the tree has never seen are equal to no expression constant, however many distinct values there are. When a string attribute declares a maximum number of distinct values, a directly inserted expression that would need more is refused, and one that fits is accepted.",
["inputs","histories"],"all sets of string and enum values, attributes sharing values, and insertion orders, up to and beyond declared capacity",
"Interning errors appear only with particular sets of values and orders and at the capacity edge; tests use a few short strings.",
["src/config.c","src/map.c","src/map.h","src/ast.c","src/tree.c"],[("interning","config.c get_id_for_string / get_id_for_ienum / try_get_id_*"),("hash map","map.c"),("capacity check","ast.c str_valid / strs_valid"),("event side lookup","tree.c fill_event")],[API])
p("P15","Frequency capping follows its definition and its constants",
"within_frequency_cap is true unless the first stored cap with the same kind, namespace and the expression's bound identifier forbids it: with a non-positive window the stored count alone must be below the limit, otherwise also an undefined timestamp or a timestamp older than the window allows it; no stored cap allows it, and an undefined cap list or current time makes it false. Identifiers come from the constants given with each expression, and an expression lacking its constant is refused.",
["inputs"],"all cap lists, kinds, namespaces, constants, limits, windows, timestamps and current times",
"The rule has many interacting conditions and is combined with negation, short-circuiting and sharing; tests check about ten literal cases.",
["src/special.c","src/ast.c","src/betree.c","src/value.c"],[("rule","special.c within_frequency_caps"),("constants","ast.c assign_constants"),("evaluation","ast.c match_special_expr")],[API])
p("P16","Segment recency tests follow their definition",
"segment_within is true exactly when the user's segment list contains the segment and its timestamp (in microseconds) is no older than the given number of seconds before the current time, and segment_before exactly when it contains it and the timestamp is older; an absent list, absent segment or absent current time makes both false. This holds for lists ordered by segment identifier, with the default or an explicitly named segment attribute.",
["inputs"],"all ordered segment lists, identifiers, ages, timestamps and current times",
"Boundary instants, positions in the list and combinations with other operators are innumerable; tests check a few instants.",
["src/special.c","src/ast.c","src/parser.y"],[("rule","special.c segment_within / segment_before"),("evaluation","ast.c match_special_expr"),("syntax","parser.y s_segment_expr")],[API])
p("P17","Geographic radius and string functions follow their definitions",
"geo_within_radius is true exactly when the great-circle distance in kilometres between the given point and the event's coordinates is at most the radius (away from the rounding margin), and is false when a coordinate is undefined. contains, starts_with and ends_with are true exactly when the attribute's string has the pattern as a substring, prefix or suffix, also for strings not used in any expression.",
["inputs"],"all coordinates, radii, strings and patterns",
"Functions over continuous and string spaces; tests check a few points and words.",
["src/special.c","src/ast.c","src/parser.y"],[("distance","special.c geo_within_radius"),("string functions","special.c contains / starts_with / ends_with"),("evaluation","ast.c match_special_expr")],[API])
p("P18","No memory error or undefined behaviour on any accepted use",
"No sequence of documented calls with arbitrary expression text, well-typed events and any configuration reads or writes outside live memory, uses uninitialised memory in a decision, frees twice, performs undefined arithmetic, or terminates the process.",
["inputs","histories","configurations"],"all call sequences over the public interface, including hostile expression text",
"Tests run without instrumentation on benign inputs, and such faults are silent there.",
["src/"],[("whole library","all of src/*.c")],["sanitizer reports, process exit"])
p("P19","Everything a tree, event or report owned is released",
"After destroying every tree, event, report and constant a program created, no memory obtained by the library remains allocated, on successful paths as well as after refused expressions, refused events and repeated searches. Memory use does not grow with the number of queries executed.",
["histories","inputs"],"all lifecycles of trees, events and reports with successes and refusals mixed in",
"Leaks do not fail tests, and refusal paths are rarely run under a leak checker.",
["src/betree.c","src/tree.c","src/ast.c","src/parser.y","src/lexer.l","src/value.c","src/config.c"],[("destruction","betree.c betree_free, tree.c free_*, ast.c free_ast_node, config.c free_config"),("refusal paths","betree.c, parser.y")],["allocator accounting at the end of each lifecycle"])
p("P20","Parallel queries on one tree are race-free and give sequential answers",
"Once a tree is built, any number of threads may run searches and existence queries on it at the same time, each with its own events (as text or objects) and reports, without data races. Every such query returns exactly what it returns when run alone.",
["schedules","inputs"],"all schedules of concurrent read-only queries from several threads",
"The tests are single-threaded.",
["src/tree.c","src/betree.c","src/event_parser.y","src/map.h","src/map.c","src/config.c"],[("read-only search on a const tree","betree.h betree_search(const struct betree*)"),("event parsing","event_parser.y event_parse"),("string lookup","config.c try_get_id_for_string, map.h map_get")],["thread sanitizer reports and per-query answers"])
p("P21","The live tree keeps its structural invariants after every insertion",
"After every insertion each inserted expression is stored in exactly one leaf, every branch an expression lies under is for an attribute it mentions, no attribute is partitioned twice on one path, parent links mirror child links, the halves of a split lie inside the split range and together cover it (two end points may stand for a float range without a middle), and no leaf exceeds its recorded capacity.",
["histories","configurations"],"all insertion histories and tuning parameters",
"Structural damage may stay invisible in answers until further insertions; tests look at a few tiny trees.",
["src/tree.c"],[("insertion","tree.c insert_be_tree"),("partitioning","tree.c space_partitioning"),("clustering","tree.c space_clustering")],["walk over the live tree after insertions"],False,[{"name":"index graph","meaning":"leaves, partitions and value ranges reachable from the root","where":"tree.h"}])
p("P22","Reports are self-consistent and the index does its work",
"In every report the number of matches equals the number of listed ids, no more expressions are evaluated than are stored, each match was evaluated, and early decisions never exceed evaluations. On collections whose expressions select disjoint values of a bounded required attribute only a small share is evaluated, expressions decided by an undefined attribute are decided early, and repeated sub-expressions are reused.",
["inputs","histories"],"all trees and events for consistency; families of selective, undefined-heavy and repetitive collections for effectiveness",
"A change that silently disables pruning, early decision or reuse keeps every answer and every test; the counters of arbitrary searches are never checked.",
["src/tree.c","src/ast.c"],[("counters","tree.c betree_search_with_preds / match_sub, ast.c match_node_inner"),("pruning","tree.c match_be_tree / is_event_enclosed")],["the report structure"])
p("P23","Separate trees do not influence each other",
"Operations on one tree never change the answers of another, whatever attributes, values and ids they share and however calls on them interleave, and destroying one leaves the others intact. Threads that each build and query their own tree do not race.",
["histories","schedules"],"all interleavings of calls on several trees, in one thread or several",
"Needs hidden shared state to be provoked by interleaved use; each test uses one tree.",
["src/betree.c","src/config.c","src/parser.y","src/event_parser.y"],[("per-tree configuration","config.c"),("parsers","parser.y parse, event_parser.y event_parse")],["answers per tree and thread sanitizer reports"])
p("P24","Answers stay exact at scale",
"The guarantees on answers hold with thousands of attributes, tens of thousands of expressions, distinct values, list elements and repeated predicates, long texts and deeply nested expressions, in particular beyond every multiple of the machine word in the number of attributes or repeated predicates and beyond what one or two bytes can count.",
["inputs","configurations"],"large numbers of attributes, expressions, shared predicates, list elements and nesting levels",
"Tests stay far below the word-size limits of the internal bit sets; the performance test checks no answers.",
["src/tree.c","src/memoize.c","src/ast.c","src/betree.c"],[("bit sets per attribute","tree.c make_sub / make_undefined / try_short_circuit"),("bit sets per predicate","memoize.c, tree.c make_memoize"),("growing arrays","tree.c add_sub_to_eval / add_sub")],[API])
p("P25","Attribute declarations are kept faithfully, by call or by text line",
"Attributes are numbered in declaration order and report the declared name and type, and declaring one by a text line of name, type, optionality and limits is equivalent to the corresponding call. Emptying a tree removes all its expressions while keeping the declarations, after which the same expressions can be inserted again and it answers as a freshly configured tree does.",
["inputs","configurations","histories"],"all sequences of declarations in either form, followed by insertions, emptying and queries",
"Equivalence over all declarations and later behaviour is not sampled; the text form is only used as a loader in one test program.",
["src/helper.c","src/config.c","src/betree.c"],[("declaration by line","helper.c add_variable_from_string"),("introspection","betree.c betree_get_variable_definition"),("emptying","helper.c empty_tree")],[API])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
