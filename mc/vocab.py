"""Vocabulary of the reference model.  Written down from the W3C documents; nothing here is read from the code under
test."""
import logging
import warnings

logging.disable(logging.CRITICAL)
warnings.simplefilter("ignore")

from rdflib import BNode, Literal, URIRef  # noqa: E402
from rdflib.namespace import OWL, RDF, RDFS, XSD  # noqa: E402

EX = "http://ex.org/"
ERR_MSG_CLASS = URIRef("http://www.daml.org/2002/03/agents/agent-ont#ErrorMessage")
ERR_MSG_PROP = URIRef("http://www.daml.org/2002/03/agents/agent-ont#error")

PREFIX = {
    "rdf": "http://www.w3.org/1999/02/22-rdf-syntax-ns#",
    "rdfs": "http://www.w3.org/2000/01/rdf-schema#",
    "owl": "http://www.w3.org/2002/07/owl#",
    "xsd": "http://www.w3.org/2001/XMLSchema#",
    "ex": EX,
}


def iri(q):
    p, l = q.split(":", 1)
    return URIRef(PREFIX[p] + l)


def lit(lex, dt=None, lang=None):
    """A literal with exactly this lexical form."""
    if lang:
        return Literal(lex, lang=lang)
    if isinstance(dt, str) and not isinstance(dt, URIRef):
        dt = iri(dt)
    return Literal(lex, datatype=dt, normalize=False)


# --------------------------------------------------------------------------- datatypes (OWL 2 RL datatype map)
# direct super-datatype, XSD 1.1 part 2, figure "built-in datatypes"
XSD_DIRECT = {
    "dateTimeStamp": "dateTime",
    "integer": "decimal",
    "long": "integer", "int": "long", "short": "int", "byte": "short",
    "nonNegativeInteger": "integer", "positiveInteger": "nonNegativeInteger",
    "unsignedLong": "nonNegativeInteger", "unsignedInt": "unsignedLong",
    "unsignedShort": "unsignedInt", "unsignedByte": "unsignedShort",
    "nonPositiveInteger": "integer", "negativeInteger": "nonPositiveInteger",
    "normalizedString": "string", "token": "normalizedString", "language": "token",
    "Name": "token", "NCName": "Name", "NMTOKEN": "token",
}


def xsd_supers(local):
    out = []
    while local in XSD_DIRECT:
        local = XSD_DIRECT[local]
        out.append(local)
    return out


SUPERS = {XSD[k]: [XSD[s] for s in xsd_supers(k)] for k in XSD_DIRECT}

# datatypes the OWL 2 RL closure supports (declared as rdfs:Datatype)
RL_DATATYPES = [XSD[x] for x in (
    "integer decimal nonNegativeInteger nonPositiveInteger negativeInteger positiveInteger long int short byte "
    "unsignedLong unsignedInt unsignedShort unsignedByte float double string normalizedString token language Name "
    "NCName NMTOKEN boolean hexBinary base64Binary anyURI dateTimeStamp dateTime time date").split()] + [
    RDFS.Literal, RDF.XMLLiteral, RDF.HTML, RDF.langString, RDF.PlainLiteral]

# primitive datatypes of OWL 2 RL with pairwise disjoint value spaces (xsd:string is part of rdf:PlainLiteral)
DISJOINT_TOP = [XSD[x] for x in "anyURI base64Binary boolean dateTime decimal double float hexBinary string".split()] + [
    RDF.PlainLiteral, RDF.XMLLiteral]
DISJOINT_PAIRS = {frozenset((a, b)) for a in DISJOINT_TOP for b in DISJOINT_TOP
                  if a != b and {a, b} != {XSD.string, RDF.PlainLiteral}}

ANNOTATION_PROPERTIES = [iri(x) for x in (
    "rdfs:label rdfs:comment rdfs:seeAlso rdfs:isDefinedBy owl:deprecated owl:priorVersion "
    "owl:backwardCompatibleWith owl:incompatibleWith owl:versionInfo").split()]
