#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here, in one readable place)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=hook)))


OWL = "owlrl/OWLRL.py"
CORE = "owlrl/Closure.py"
RDFS = "owlrl/RDFSClosure.py"
INIT = "owlrl/__init__.py"
EXT = "owlrl/OWLRLExtras.py"
COMB = "owlrl/CombinedClosure.py"
DTH = "owlrl/DatatypeHandling.py"
RDT = "owlrl/RestrictedDatatype.py"
XSDT = "owlrl/XsdDatatypes.py"
AX = "owlrl/AxiomaticTriples.py"

prop("C01", "OWL 2 RL expansion adds only entailed triples (soundness)",
     "Every triple an OWL 2 RL expansion adds to a graph is derivable from the input by the OWL 2 RL/RDF rules "
     "(Tables 4-9 of the OWL 2 profiles document), is one of the documented one-time statements (owl:Thing and owl:Nothing "
     "are classes, the annotation properties, the datatype declarations, the typing of literals and datatype-typed resources with "
     "their datatypes and super-datatypes, disjointness of the datatypes in use), or belongs to an error report. Nothing else is ever added. (Lists are meant to be complete rdf:Lists ending in rdf:nil.)",
     ["inputs"], "all RDF graphs (bounded: every rule instance under every variable identification and term kind, near-miss graphs with one "
     "premise withheld, and dense small-vocabulary graphs)",
     "Tests only assert that an expected triple is present (plus a handful of counts on one family-tree file); none asserts that nothing else was added, "
     "over any variety of graphs.",
     [OWL, CORE], [("rule dispatch over every triple", OWL), ("store_triple / flush", CORE), ("one-time rules", OWL)],
     ["the graph after DeductiveClosure(OWLRL_Semantics).expand(graph)"])

prop("C02", "Equality: owl:sameAs is an equivalence with full substitution",
     "After an OWL 2 RL expansion owl:sameAs is reflexive on every term occurring in the graph, symmetric and transitive. Whenever x sameAs y holds, "
     "every triple mentioning x in subject, predicate or object position also holds with y in that position (unless the predicate would be "
     "a literal, or a blank node, which is not representable in standard RDF).",
     ["inputs"], "all RDF graphs with owl:sameAs asserted or derived (through functional properties, keys, cardinalities, ...), with IRIs, blank nodes and literals as members",
     "One test touches sameAs, and only its clash with differentFrom; no test covers transitivity, substitution in any position, or derived equalities.",
     [OWL], [("eq-* rules", OWL + " _equality")], ["the expanded graph"])

prop("C03", "Property axioms: all consequences of OWL 2 RL property axioms are added",
     "After an OWL 2 RL expansion the graph is closed under the property rules: domain, range, functional, inverse-functional, symmetric, transitive, "
     "sub-property, property chains of any length, equivalent properties, inverse properties and keys with any number of key properties. "
     "This holds no matter whether the premises are asserted or themselves derived, after how many rounds, and which terms coincide.",
     ["inputs"], "all RDF graphs; bounded enumeration of rule instances, variable identifications, term kinds, premise derivations, list lengths and branching chains",
     "The tests cover one inverse-of/property-chain ontology; none covers keys, (inverse) functional, symmetric, transitive, domain/range, or combinations.",
     [OWL], [("prp-* rules", OWL + " _properties"), ("chain evaluation", OWL + " _property_chain"), ("list decoding", OWL + " _list")], ["the expanded graph"])

prop("C04", "Class expressions and axioms: all consequences are added",
     "After an OWL 2 RL expansion the graph is closed under the class rules: intersection, union, some/all-values-from, has-value, maximum (qualified) "
     "cardinality 1, one-of, sub-class and equivalent-class. This holds for lists of any length, any order of list members, and premises asserted or derived.",
     ["inputs"], "all RDF graphs; bounded enumeration of rule instances, identifications, term kinds, premise derivations, list lengths 1-4",
     "Tests cover single hand-written instances of max-cardinality and allValuesFrom only; intersection, union, someValuesFrom, hasValue, oneOf and equivalence are untested.",
     [OWL], [("cls-* rules", OWL + " _classes"), ("cax-* rules", OWL + " _class_axioms")], ["the expanded graph"])

prop("C05", "Schema vocabulary: class/property hierarchy consequences are added",
     "After an OWL 2 RL expansion the graph is closed under the schema (scm-*) rules: the class and property hierarchies are reflexive on declared classes and properties and transitive, "
     "equivalence and mutual inclusion coincide, declared classes lie between owl:Nothing and owl:Thing, domains and ranges propagate along both hierarchies, and "
     "hasValue / someValuesFrom / allValuesFrom restrictions and boolean class expressions are ordered as the rules demand.",
     ["inputs"], "all RDF graphs; bounded enumeration of rule instances, identifications, cycles, chain depths and premise derivations",
     "No test exercises any scm rule directly.",
     [OWL], [("scm-* rules", OWL + " _schema_vocabulary")], ["the expanded graph"])

prop("C06", "Every OWL 2 RL inconsistency is reported",
     "If, after expansion, the graph matches the premises of an OWL 2 RL rule that concludes 'false' (sameAs vs differentFrom/AllDifferent, irreflexive, asymmetric, disjoint or all-disjoint "
     "properties, negative assertions, owl:Nothing members, complements, max (qualified) cardinality 0, disjoint or all-disjoint classes), the graph contains an error report, i.e. a fresh blank node "
     "typed as error message with a text naming the clashing resources. Distinct clashes are reported, whatever the position of the clashing members in a list and whether the clash is asserted or derived.",
     ["inputs"], "all inconsistent RDF graphs up to the bound: every 'false' rule, every identification of variables, every pair position in lists of length 2-4, premises asserted or derived",
     "Tests have one instance for five of the ~20 'false' rules, none for list-based ones with more than the simplest shape, and eq_diff1 asserts over a possibly empty set.",
     [OWL, CORE], [("add_error", CORE), ("false-rules", OWL)], ["error nodes (err:ErrorMessage / err:error) in the expanded graph"],
     state=[("error_messages", "inconsistency messages collected during chaining", CORE)])

prop("C07", "Consistent graphs get no error report; reports name real clashes",
     "An OWL 2 RL expansion adds an error report only if the closure really matches a rule concluding 'false' or contains an ill-typed literal, and the resources named in a report are "
     "the ones taking part in such a clash. A graph without contradictions gets no error report at all.",
     ["inputs"], "all RDF graphs up to the bound, in particular near-misses of every 'false' rule (one premise missing or one variable different)",
     "No test asserts the absence of an error report on a consistent graph.",
     [OWL, CORE], [("false-rules", OWL), ("error emission", CORE + " closure")], ["error nodes in the expanded graph"])

prop("C08", "Ill-typed literals are reported, well-typed literals are not",
     "An OWL 2 RL expansion reports a literal of a numeric, boolean, binary, string-derived or date/time datatype exactly when its lexical form lies outside that datatype's XSD lexical space or value range, "
     "and never fails because of one. Documented deviations are out of scope: magnitude limits of float and double, years outside 0001-9999, hour 24, leap seconds and character-class details of names beyond ASCII.",
     ["inputs"], "all literals up to the bound: for each datatype every string up to a length over a datatype-specific alphabet, all boundary values of bounded integers, and all field-wise combinations for dates and times",
     "One test has a single ill-typed literal (-1 as nonNegativeInteger).",
     [DTH, OWL], [("lexical conversion table", DTH + " AltXSDToPYTHON"), ("dt-not-type", OWL + " _one_time_rules_datatypes")],
     ["error nodes in the expanded graph", "exceptions out of expand"])

prop("C09", "Improved conversions map lexical forms to the right XSD value",
     "The improved lexical conversions return, for every valid lexical form, the value XSD assigns: integers and decimals exactly, booleans, binary contents, and for dates and times the right instant "
     "including fractional seconds and positive or negative time-zone offsets. Two lexical forms of a datatype convert to equal (or ordered) values exactly when XSD says they denote equal (or ordered) values.",
     ["inputs"], "all valid lexical forms up to the bound per datatype, and all pairs of them for equality and order",
     "No test calls a conversion function.",
     [DTH], [("conversion functions", DTH), ("time zone parsing", DTH + " _returnTimeZone")],
     ["public conversion table", "Literal values while the improved conversions are installed"])

prop("C10", "Datatype hierarchy: typed values get exactly their super-datatypes",
     "After an OWL 2 RL expansion a literal, or a resource explicitly typed with a supported datatype, is typed with that datatype, with all of its super-datatypes in the XSD/OWL hierarchy and with no other datatype; "
     "datatypes in use out of xsd:anyURI, base64Binary, boolean, dateTime, decimal, double, float, hexBinary, string, rdf:PlainLiteral and rdf:XMLLiteral whose value spaces are disjoint (all pairs except string/PlainLiteral) are declared disjoint, so that a value typed with two disjoint datatypes is reported as an error. owl:sameAs links never turn an individual into a datatype.",
     ["inputs"], "all pairs of supported datatypes, as literal datatypes, as explicit types, and combined through owl:sameAs",
     "One test asserts the direct type of a single literal.",
     [XSDT, OWL, AX], [("subsumption tables", XSDT), ("disjointness table", AX), ("datatype one-time rules", OWL)], ["rdf:type triples and error nodes in the expanded graph"])

prop("C11", "RDFS expansion computes exactly the RDFS closure",
     "Without axioms, an RDFS expansion adds exactly the triples derivable by the RDFS entailment rules rdf1 and rdfs2-rdfs13 (type Property for predicates, Resource typing for every subject and object, domain, range, "
     "sub-property and sub-class transitivity and inheritance, class/datatype/container-membership rules) plus the copies of triples under value-equal literals, nothing more and nothing less.",
     ["inputs"], "all RDF graphs; bounded: every set of up to k triples over a vocabulary that includes the RDFS vocabulary itself in every position, plus deep chains",
     "Two tests, one positive instance of literal equality and one of datatype axioms.",
     [RDFS, CORE], [("rules", RDFS), ("cycle until no change", CORE + " closure")], ["the graph after DeductiveClosure(RDFS_Semantics).expand(graph)"])

prop("C12", "RDFS literal handling: value-equal literals share all triples",
     "In an RDFS expansion, two literals of the input that denote the same value are interchangeable in object position: every triple with one also appears with the other, and literals with different values are never mixed. "
     "With datatype axioms requested, every literal that carries a datatype is typed with it, and literals without datatype are not.",
     ["inputs"], "all sets of literals up to size 3-4 drawn from a pool covering numeric types, strings, booleans, dates, language tags and ill-typed forms, in all object positions",
     "One positive test pair (10 as integer and nonNegativeInteger) and one instance of datatype typing.",
     [RDFS], [("one_time_rules", RDFS), ("_literals_same_as", RDFS), ("add_d_axioms", RDFS)], ["the expanded graph"])

prop("C13", "Combined closure contains both the RDFS and the OWL 2 RL closure",
     "The combined RDFS + OWL 2 RL expansion contains every triple of the RDFS expansion and every triple of the OWL 2 RL expansion of the same graph, identifies owl:Thing with rdfs:Resource, rdfs:Class with owl:Class and owl:DataRange with rdfs:Datatype, "
     "and is closed under both rule sets applied jointly. It adds nothing that is not derivable from the input and these identifications by the two rule sets.",
     ["inputs"], "all RDF graphs up to the bound (rule instances of both rule sets and their cross-compositions)",
     "No test uses the combined closure.",
     [COMB, RDFS, OWL], [("rules / one_time_rules of the combined class", COMB), ("binding triples", COMB)], ["the graph after DeductiveClosure(RDFS_OWLRL_Semantics).expand(graph)"])

prop("C14", "Axiomatic triples appear exactly when requested",
     "The axiomatic triples and the datatype axioms of the chosen semantics are present after expansion when the corresponding option is set, and none of them is added on their account when it is not. With axioms on, RDFS container-membership axioms are added for "
     "every rdf:_n used as a predicate in the graph, whatever gaps or repetitions there are, and for no index beyond the largest one used.",
     ["inputs", "configurations"], "all closure classes x option combinations, and all sets/multiplicities of rdf:_n predicates up to n = 12",
     "One test switches datatype axioms on for one class and checks two literals; axioms and container membership are never tested.",
     [AX, CORE, RDFS, OWL, COMB, EXT], [("add_axioms / add_d_axioms", RDFS), ("maximal container index", CORE + " __init__")], ["the expanded graph"])

prop("C15", "Expansion preserves the input and is monotone",
     "Expansion never removes or alters a triple of the input (except triples with a blank-node predicate, which are not standard RDF, and trimming when asked for). Adding triples to the input never removes a triple from the result: "
     "the expansion of a graph contains the expansion of each of its subgraphs, error reports included.",
     ["inputs", "configurations"], "all graphs up to the bound over a mixed RDFS/OWL/datatype vocabulary, each with all one-triple extensions, for RDFS, OWL 2 RL, combined and extension semantics",
     "Tests never compare two expansions or check that the input is preserved.",
     [CORE, OWL, EXT], [("additive rule application", CORE + " closure"), ("post_process", OWL)], ["the expanded graphs"])

prop("C16", "Expansion is a fixpoint: re-expansion and incremental use agree",
     "Expanding an expanded graph adds nothing but repeated error reports, and any history of adding triples and expanding ends in the same graph as adding all triples first and expanding once. "
     "Chaining stops only when nothing more can be derived, however many rounds that takes.",
     ["histories", "inputs"], "all histories of add-triple and expand operations up to a depth over small alphabets, for RDFS and OWL 2 RL; derivations needing up to 30 rounds",
     "No test expands a graph twice.",
     [CORE, RDFS, OWL], [("cycle until added set is empty", CORE + " closure"), ("cycle-number dependent optimisations", RDFS)], ["the expanded graphs"])

prop("C17", "The result does not depend on iteration order",
     "The expanded graph (up to naming of error nodes) is a function of the set of input triples only: it does not depend on the order in which triples were added, on the order in which the store or Python enumerates triples, or on hash seeds.",
     ["schedules", "inputs"], "for each scenario graph: all insertion orders of small inputs, all store enumeration policies, and every single deviation from the default enumeration order at each store access",
     "Tests run under a fixed hash seed with one insertion order.",
     [CORE, OWL, RDFS, EXT], [("two-phase derive/flush", CORE + " closure"), ("rule loops over the graph", OWL)], ["the expanded graph"])

prop("C18", "The result does not depend on the naming of user terms",
     "Renaming user IRIs and blank nodes consistently in the input renames them in the result and changes nothing else; in particular an IRI and a blank node in the same role yield the same inferences (except for predicates, "
     "where blank nodes take part in inference but are dropped from the result), and the alphabetical order, length or namespace of names never matters.",
     ["inputs"], "all scenario graphs x all permutations of their names and all IRI/blank-node choices for their subject/object terms",
     "Tests use one fixed set of test IRIs.",
     [OWL, CORE, RDFS], [("rules treat terms opaquely", OWL), ("blank-node predicate removal", OWL + " post_process")], ["the expanded graphs"])

prop("C19", "Expansions do not influence each other (no state leaks)",
     "The result of an expansion depends only on the graph and the options, not on which graphs were expanded before with which closure class, and one closure object can be reused for any number of graphs. After an expansion the "
     "lexical conversions of RDFLib are exactly what they were before, unless the improved conversions were switched on generally, in which case they stay on until switched off.",
     ["histories", "configurations"], "all histories up to a depth over expansions (five closure classes x graphs, some with facet datatypes) and the conversion switches",
     "Each test runs one expansion and looks at its own graph only; nothing checks what a later expansion or literal sees.",
     [INIT, DTH, COMB, EXT, XSDT], [("use_Alt_lexical_conversions / use_RDFLib_lexical_conversions", DTH), ("expand", INIT), ("add_new_datatype", COMB)],
     ["expanded graphs", "values of literals created between expansions"],
     state=[("conversion table", "rdflib's lexical-to-value mapping", DTH), ("datatype tables", "lists of supported datatypes, subsumptions and converters", XSDT)])

prop("C20", "A failing expansion leaves no trace outside its graph",
     "If an expansion raises, because the store fails at any point or a user-supplied rule raises, the lexical conversions and all later expansions behave as if it had never been started. Triples of the input graph are not lost.",
     ["fault_sequences"], "every store access of an expansion as the failing one, for each closure class, and every extension hook as the raising one",
     "No test makes an expansion fail.",
     [INIT, CORE, DTH], [("restoration of conversions around expand", INIT)], ["values of literals after the failure", "results of later expansions", "input triples"])

prop("C21", "Facet-restricted datatypes: literals are classified by their facets",
     "With the extended closure, a literal of the restricted datatype's base type (or a subtype) is typed with a facet-restricted datatype exactly when its value satisfies every facet of the definition, so that someValuesFrom over the datatype fires exactly for such values. "
     "A literal value of an allValuesFrom restriction that violates the facets is reported as an error and is not typed with the datatype. A definition with several base types or several facet lists is reported and defines nothing, without disturbing other definitions.",
     ["inputs"], "all combinations of up to two facets over small bound values for numeric, string, binary and date/time base types, against all values of a pool",
     "One test with one literal inside one integer range.",
     [RDT, EXT], [("extract_faceted_datatypes", RDT), ("_subsume_restricted_datatypes", EXT), ("restriction_typing_check", EXT)], ["rdf:type triples and error nodes in the expanded graph"])

prop("C22", "Facet checks implement the XSD/OWL facet semantics",
     "A restricted datatype accepts a value exactly if all its facets hold: inclusive and exclusive bounds, exact/minimum/maximum length, patterns matching the whole lexical form, and language ranges matched by RFC 4647 extended filtering; when a facet is given several times the tightest bound applies. A value that cannot be compared with a bound is rejected. "
     "Converting a lexical form with a restricted datatype raises ValueError exactly when the base conversion or a facet rejects it.",
     ["inputs"], "all pairs of facets (including repeated ones) from small pools x all values of a pool; all language ranges and tags up to 4 subtags over a small subtag alphabet",
     "No test touches facet checks, patterns or language ranges.",
     [RDT], [("RestrictedDatatype.checkValue", RDT), ("language range matching", RDT)], ["RestrictedDatatype.checkValue / toPython"])

prop("C23", "Extended closure: self restrictions and rationals on top of OWL 2 RL",
     "The extended closure contains the OWL 2 RL closure and additionally derives p(y,y) for members of a hasSelf restriction and membership for y with p(y,y); decimals are classified as owl:rational, and owl:rational literals are accepted exactly when they are an integer, "
     "optionally followed by '/' and a positive integer. RDFS rules are applied exactly when requested.",
     ["inputs", "configurations"], "all rule instances of hasSelf with identifications, all strings up to length 5 over a rational alphabet, with and without the RDFS option",
     "One test uses the extended closure, for one facet instance.",
     [EXT, COMB], [("rules of the extended class", EXT), ("_strToRational", EXT)], ["the expanded graph"])

prop("C24", "Trimming removes only the documented trivial triples",
     "The trimming closure yields the extended closure minus exactly the documented kinds of triples: reflexive sameAs/subClassOf/subPropertyOf/equivalentClass, triples putting a class below owl:Thing, rdfs:Resource or above owl:Nothing, typing as rdfs:Resource, declarations and disjointness of datatypes "
     "not used as a type, annotation-property declarations and the fixed declarations about built-in classes. Every other inferred or asserted triple stays.",
     ["inputs", "configurations"], "all scenario graphs up to the bound, with and without the RDFS and axiom options",
     "No test uses trimming.",
     [EXT], [("post_process of the trimming class", EXT)], ["the trimmed graph compared with the untrimmed one"])

prop("C25", "Datasets and destinations: same inferences, sources untouched",
     "Expanding a dataset reasons over the union of all its graphs; inferred triples go only to the requested destination (a graph, a graph name, or the default graph when none is given) and every other graph is left as it was. Source and destination together "
     "contain exactly what expanding the merged data in a plain graph would contain, however the triples are distributed over the graphs. A destination in another store, or the name of a graph where there is no dataset, is rejected with a ValueError and nothing is changed.",
     ["inputs", "configurations"], "all distributions of scenario triples over up to three graphs x Dataset/ConjunctiveGraph/plain graphs x all ways to name the destination",
     "Two tests expand one file from the default graph into one named graph and count a few triples.",
     [CORE, OWL], [("graph/destination selection", CORE + " __init__"), ("writes go to destination", CORE)], ["contents of every graph of the dataset"])

prop("C26", "File conversion returns the expansion of its inputs in the asked format",
     "Converting sources and text with given options returns a document in the requested output format that parses back to the expansion (with the closure the options select, or none) of the merged inputs, as standard RDF: no literal subjects and no blank-node predicates. "
     "Every accepted spelling of an option value and both the library call and the command line script honour the same options.",
     ["configurations", "inputs"], "the complete option matrix (closures, extras, axioms, trimming, input and output formats, option spellings) over small documents",
     "No test calls the conversion function or the script.",
     [INIT, "scripts/owlrl"], [("convert_graph", INIT), ("return_closure_class", INIT), ("option parsing", "scripts/owlrl")], ["returned document", "script standard output"])

prop("C27", "owl:imports are merged transitively and terminate",
     "Interpreting imports merges every document reachable through owl:imports into the graph, for any import graph including cycles, self-imports and diamonds, removes the import statements and terminates. "
     "Triples of the importing graph are kept, and no document that is not reachable is read.",
     ["inputs"], "all import graphs over three documents (all 512 edge sets, self-loops included) from each start, plus mixed formats",
     "No test uses owl:imports.",
     [INIT], [("interpret_owl_imports", INIT)], ["the graph after import interpretation", "documents opened"])

prop("C28", "Expansion terminates normally on every RDF graph",
     "No RDF graph makes an expansion raise or loop, however malformed its OWL constructs are: cardinalities that are not numbers, missing, cyclic, branching or literal-valued lists, restrictions without parts, vocabulary terms used in unusual positions, ill-typed literals. "
     "The result is standard RDF except for literals as subjects: no predicate is a literal and, for the OWL closures, none is a blank node.",
     ["inputs"], "all graphs of up to two or three triples over a vocabulary that contains every OWL/RDF construct term in every position, plus malformed list shapes in every list-valued construct",
     "Tests use well-formed ontologies only.",
     [OWL, CORE, RDT], [("rule dispatch", OWL), ("list decoding", OWL), ("predicate filter", CORE + " store_triple"), ("post_process", OWL)], ["exceptions and the expanded graph"])

prop("C29", "User-defined closure classes take part fully in the expansion",
     "A rule added by a user-defined closure class is applied to every triple, asserted or derived by any rule, its conclusions feed all other rules until nothing changes, and its one-time, axiom, pre- and post-processing steps run once, in the documented order. "
     "Error messages it adds are reported once per distinct text, datatypes it registers are checked and subsumed like built-in ones, and its typing check decides for every kind of value whether an allValuesFrom restriction types it.",
     ["histories", "inputs"], "all pairings of a user rule with each built-in rule as its producer and consumer, all built-in closure classes as base, all subsets of overridden hooks",
     "No test defines an extension class.",
     [CORE, COMB, INIT], [("hook calls in closure()", CORE), ("add_new_datatype", COMB)], ["hook call sequence", "the expanded graph"])

prop("C30", "The CGI service replies with the expansion asked for or an error page",
     "For any request, by GET or POST, the service replies with the expansion of all the documents and the text given in its fields, with the closures and axioms the fields select, in the output format asked for and with the Content-Type of that format. "
     "A request it cannot process (no input, missing documents, input that does not parse) is answered with status 400 and a complete HTML page that repeats the request, with everything that comes from the request escaped.",
     ["inputs", "configurations"], "the complete matrix of closure and axiom fields and output formats, all subsets of the input fields, all accepted and other spellings, GET and POST, every field holding markup, and all kinds of failing requests",
     "No test runs the service.",
     ["scripts/RDFConvertService", INIT], [("request fields, reply header and error page", "scripts/RDFConvertService"), ("convert_graph", INIT)], ["the reply: status, content type and body"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
