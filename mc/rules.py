"""Rule tables of the reference model.

A declarative transcription of the W3C documents:
  * OWL 2 Profiles, section 4.3, tables 4-9 (OWL 2 RL/RDF rules),
  * RDF Semantics, section 7 (rdf1, rdfs2-rdfs13),
  * the additional rules documented for the extended closure (self restrictions).

Syntax of a rule:  "name [family] : body -> head"   body/head: comma separated triples "s p o";
`?x` is a variable, `a` is rdf:type, everything else a prefixed name or a literal (see ref.intern_const).
A head `FALSE(?x ?y)` is an inconsistency; the listed variables are the clashing resources.
Rules over lists are in LIST_RULES (they are evaluated by ref.Closure._list_rules).
"""

OWL_RULES = """
eq-ref   [C02]: ?s ?p ?o -> ?s owl:sameAs ?s, ?p owl:sameAs ?p, ?o owl:sameAs ?o
eq-sym   [C02]: ?x owl:sameAs ?y -> ?y owl:sameAs ?x
eq-trans [C02]: ?x owl:sameAs ?y, ?y owl:sameAs ?z -> ?x owl:sameAs ?z
eq-rep-s [C02]: ?s owl:sameAs ?s2, ?s ?p ?o -> ?s2 ?p ?o
eq-rep-p [C02]: ?p owl:sameAs ?p2, ?s ?p ?o -> ?s ?p2 ?o
eq-rep-o [C02]: ?o owl:sameAs ?o2, ?s ?p ?o -> ?s ?p ?o2
eq-diff1 [C06]: ?x owl:sameAs ?y, ?x owl:differentFrom ?y -> FALSE(?x ?y)

prp-dom  [C03]: ?p rdfs:domain ?c, ?x ?p ?y -> ?x a ?c
prp-rng  [C03]: ?p rdfs:range ?c, ?x ?p ?y -> ?y a ?c
prp-fp   [C03]: ?p a owl:FunctionalProperty, ?x ?p ?y1, ?x ?p ?y2 -> ?y1 owl:sameAs ?y2
prp-ifp  [C03]: ?p a owl:InverseFunctionalProperty, ?x1 ?p ?y, ?x2 ?p ?y -> ?x1 owl:sameAs ?x2
prp-irp  [C06]: ?p a owl:IrreflexiveProperty, ?x ?p ?x -> FALSE(?x ?p)
prp-symp [C03]: ?p a owl:SymmetricProperty, ?x ?p ?y -> ?y ?p ?x
prp-asyp [C06]: ?p a owl:AsymmetricProperty, ?x ?p ?y, ?y ?p ?x -> FALSE(?p ?x ?y)
prp-trp  [C03]: ?p a owl:TransitiveProperty, ?x ?p ?y, ?y ?p ?z -> ?x ?p ?z
prp-spo1 [C03]: ?p1 rdfs:subPropertyOf ?p2, ?x ?p1 ?y -> ?x ?p2 ?y
prp-eqp1 [C03]: ?p1 owl:equivalentProperty ?p2, ?x ?p1 ?y -> ?x ?p2 ?y
prp-eqp2 [C03]: ?p1 owl:equivalentProperty ?p2, ?x ?p2 ?y -> ?x ?p1 ?y
prp-pdw  [C06]: ?p1 owl:propertyDisjointWith ?p2, ?x ?p1 ?y, ?x ?p2 ?y -> FALSE(?p1 ?p2 ?x ?y)
prp-inv1 [C03]: ?p1 owl:inverseOf ?p2, ?x ?p1 ?y -> ?y ?p2 ?x
prp-inv2 [C03]: ?p1 owl:inverseOf ?p2, ?x ?p2 ?y -> ?y ?p1 ?x
prp-npa1 [C06]: ?x owl:sourceIndividual ?i1, ?x owl:assertionProperty ?p, ?x owl:targetIndividual ?i2, ?i1 ?p ?i2 -> FALSE(?i1 ?p ?i2)
prp-npa2 [C06]: ?x owl:sourceIndividual ?i1, ?x owl:assertionProperty ?p, ?x owl:targetValue ?i2, ?i1 ?p ?i2 -> FALSE(?i1 ?p ?i2)

cls-nothing2 [C06]: ?x a owl:Nothing -> FALSE(?x)
cls-com  [C06]: ?c1 owl:complementOf ?c2, ?x a ?c1, ?x a ?c2 -> FALSE(?c1 ?c2 ?x)
cls-svf1 [C04]: ?x owl:someValuesFrom ?y, ?x owl:onProperty ?p, ?u ?p ?v, ?v a ?y -> ?u a ?x
cls-svf2 [C04]: ?x owl:someValuesFrom owl:Thing, ?x owl:onProperty ?p, ?u ?p ?v -> ?u a ?x
cls-avf  [C04]: ?x owl:allValuesFrom ?y, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?v -> ?v a ?y
cls-hv1  [C04]: ?x owl:hasValue ?y, ?x owl:onProperty ?p, ?u a ?x -> ?u ?p ?y
cls-hv2  [C04]: ?x owl:hasValue ?y, ?x owl:onProperty ?p, ?u ?p ?y -> ?u a ?x
cls-maxc1 [C06]: ?x owl:maxCardinality ZERO, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?y -> FALSE(?x ?y)
cls-maxc2 [C04]: ?x owl:maxCardinality ONE, ?x owl:onProperty ?p, ?u a ?x, ?u ?p ?y1, ?u ?p ?y2 -> ?y1 owl:sameAs ?y2
cls-maxqc1 [C06]: ?x owl:maxQualifiedCardinality ZERO, ?x owl:onProperty ?p, ?x owl:onClass ?c, ?u a ?x, ?u ?p ?y, ?y a ?c -> FALSE(?x ?c ?y)
cls-maxqc2 [C06]: ?x owl:maxQualifiedCardinality ZERO, ?x owl:onProperty ?p, ?x owl:onClass owl:Thing, ?u a ?x, ?u ?p ?y -> FALSE(?x owl:Thing ?y)
cls-maxqc3 [C04]: ?x owl:maxQualifiedCardinality ONE, ?x owl:onProperty ?p, ?x owl:onClass ?c, ?u a ?x, ?u ?p ?y1, ?y1 a ?c, ?u ?p ?y2, ?y2 a ?c -> ?y1 owl:sameAs ?y2
cls-maxqc4 [C04]: ?x owl:maxQualifiedCardinality ONE, ?x owl:onProperty ?p, ?x owl:onClass owl:Thing, ?u a ?x, ?u ?p ?y1, ?u ?p ?y2 -> ?y1 owl:sameAs ?y2

cax-sco  [C04]: ?c1 rdfs:subClassOf ?c2, ?x a ?c1 -> ?x a ?c2
cax-eqc1 [C04]: ?c1 owl:equivalentClass ?c2, ?x a ?c1 -> ?x a ?c2
cax-eqc2 [C04]: ?c1 owl:equivalentClass ?c2, ?x a ?c2 -> ?x a ?c1
cax-dw   [C06]: ?c1 owl:disjointWith ?c2, ?x a ?c1, ?x a ?c2 -> FALSE(?c1 ?c2 ?x)

scm-cls  [C05]: ?c a owl:Class -> ?c rdfs:subClassOf ?c, ?c owl:equivalentClass ?c, ?c rdfs:subClassOf owl:Thing, owl:Nothing rdfs:subClassOf ?c
scm-sco  [C05]: ?c1 rdfs:subClassOf ?c2, ?c2 rdfs:subClassOf ?c3 -> ?c1 rdfs:subClassOf ?c3
scm-eqc1 [C05]: ?c1 owl:equivalentClass ?c2 -> ?c1 rdfs:subClassOf ?c2, ?c2 rdfs:subClassOf ?c1
scm-eqc2 [C05]: ?c1 rdfs:subClassOf ?c2, ?c2 rdfs:subClassOf ?c1 -> ?c1 owl:equivalentClass ?c2
scm-op   [C05]: ?p a owl:ObjectProperty -> ?p rdfs:subPropertyOf ?p, ?p owl:equivalentProperty ?p
scm-dp   [C05]: ?p a owl:DatatypeProperty -> ?p rdfs:subPropertyOf ?p, ?p owl:equivalentProperty ?p
scm-rp   [C05]: ?p a rdf:Property -> ?p rdfs:subPropertyOf ?p, ?p owl:equivalentProperty ?p
scm-spo  [C05]: ?p1 rdfs:subPropertyOf ?p2, ?p2 rdfs:subPropertyOf ?p3 -> ?p1 rdfs:subPropertyOf ?p3
scm-eqp1 [C05]: ?p1 owl:equivalentProperty ?p2 -> ?p1 rdfs:subPropertyOf ?p2, ?p2 rdfs:subPropertyOf ?p1
scm-eqp2 [C05]: ?p1 rdfs:subPropertyOf ?p2, ?p2 rdfs:subPropertyOf ?p1 -> ?p1 owl:equivalentProperty ?p2
scm-dom1 [C05]: ?p rdfs:domain ?c1, ?c1 rdfs:subClassOf ?c2 -> ?p rdfs:domain ?c2
scm-dom2 [C05]: ?p2 rdfs:domain ?c, ?p1 rdfs:subPropertyOf ?p2 -> ?p1 rdfs:domain ?c
scm-rng1 [C05]: ?p rdfs:range ?c1, ?c1 rdfs:subClassOf ?c2 -> ?p rdfs:range ?c2
scm-rng2 [C05]: ?p2 rdfs:range ?c, ?p1 rdfs:subPropertyOf ?p2 -> ?p1 rdfs:range ?c
scm-hv   [C05]: ?c1 owl:hasValue ?i, ?c1 owl:onProperty ?p1, ?c2 owl:hasValue ?i, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c1 rdfs:subClassOf ?c2
scm-svf1 [C05]: ?c1 owl:someValuesFrom ?y1, ?c1 owl:onProperty ?p, ?c2 owl:someValuesFrom ?y2, ?c2 owl:onProperty ?p, ?y1 rdfs:subClassOf ?y2 -> ?c1 rdfs:subClassOf ?c2
scm-svf2 [C05]: ?c1 owl:someValuesFrom ?y, ?c1 owl:onProperty ?p1, ?c2 owl:someValuesFrom ?y, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c1 rdfs:subClassOf ?c2
scm-avf1 [C05]: ?c1 owl:allValuesFrom ?y1, ?c1 owl:onProperty ?p, ?c2 owl:allValuesFrom ?y2, ?c2 owl:onProperty ?p, ?y1 rdfs:subClassOf ?y2 -> ?c1 rdfs:subClassOf ?c2
scm-avf2 [C05]: ?c1 owl:allValuesFrom ?y, ?c1 owl:onProperty ?p1, ?c2 owl:allValuesFrom ?y, ?c2 owl:onProperty ?p2, ?p1 rdfs:subPropertyOf ?p2 -> ?c2 rdfs:subClassOf ?c1
"""

# rules over lists: name -> (family, predicate that points to the list, property name)
LIST_RULES = {
    "eq-diff2": "C06", "eq-diff3": "C06", "prp-spo2": "C03", "prp-adp": "C06", "prp-key": "C03",
    "cls-int1": "C04", "cls-int2": "C04", "cls-uni": "C04", "cls-oo": "C04", "cax-adc": "C06",
    "scm-int": "C05", "scm-uni": "C05",
}

# datatypes: not rules of the W3C tables, but documented behaviour of the closure (see DESIGN, C10); generated in ref
# from the XSD hierarchy:  ?x a DT -> ?x a SUPER ;  ?x a D1, ?y a D2 -> D1 disjointWith D2

RDFS_RULES = """
rdf1    [C11]: ?s ?p ?o -> ?p a rdf:Property
rdfs2   [C11]: ?p rdfs:domain ?c, ?x ?p ?y -> ?x a ?c
rdfs3   [C11]: ?p rdfs:range ?c, ?x ?p ?y -> ?y a ?c
rdfs4a  [C11]: ?s ?p ?o -> ?s a rdfs:Resource
rdfs4b  [C11]: ?s ?p ?o -> ?o a rdfs:Resource
rdfs5   [C11]: ?p rdfs:subPropertyOf ?q, ?q rdfs:subPropertyOf ?r -> ?p rdfs:subPropertyOf ?r
rdfs6   [C11]: ?p a rdf:Property -> ?p rdfs:subPropertyOf ?p
rdfs7   [C11]: ?p rdfs:subPropertyOf ?q, ?x ?p ?y -> ?x ?q ?y
rdfs8   [C11]: ?c a rdfs:Class -> ?c rdfs:subClassOf rdfs:Resource
rdfs9   [C11]: ?c rdfs:subClassOf ?d, ?x a ?c -> ?x a ?d
rdfs10  [C11]: ?c a rdfs:Class -> ?c rdfs:subClassOf ?c
rdfs11  [C11]: ?c rdfs:subClassOf ?d, ?d rdfs:subClassOf ?e -> ?c rdfs:subClassOf ?e
rdfs12  [C11]: ?p a rdfs:ContainerMembershipProperty -> ?p rdfs:subPropertyOf rdfs:member
rdfs13  [C11]: ?c a rdfs:Datatype -> ?c rdfs:subClassOf rdfs:Literal
"""

EXT_RULES = """
ext-self1 [C23]: ?z owl:hasSelf ?v, ?z owl:onProperty ?p, ?y a ?z -> ?y ?p ?y
ext-self2 [C23]: ?z owl:hasSelf ?v, ?z owl:onProperty ?p, ?y ?p ?y -> ?y a ?z
"""

COMBINED_TRIPLES = [
    ("owl:Thing", "owl:equivalentClass", "rdfs:Resource"),
    ("rdfs:Class", "owl:equivalentClass", "owl:Class"),
    ("owl:DataRange", "owl:equivalentClass", "rdfs:Datatype"),
]
