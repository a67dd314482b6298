"""GraphQL documents built as syntax trees.

Import before hiku.readers.graphql.  While a scenario is executed
symbolically the document is handed to the reader as a tree with symbolic
parts (class DocStr: the parser of graphql-core, which is not a part of hiku,
returns the tree it carries).  When it is replayed the tree is printed and
parsed by the real parser."""
import graphql
import graphql.language
import graphql.language.parser
from graphql.language import ast
from graphql.language.printer import print_ast

_real_parse = graphql.language.parser.parse


class DocStr(str):
    doc = None


def parse(source, *args, **kwargs):
    doc = getattr(source, 'doc', None)
    if doc is not None:
        return doc
    return _real_parse(source, *args, **kwargs)


graphql.language.parser.parse = parse
graphql.language.parse = parse
graphql.parse = parse


def source(s, doc):
    if not s.symbolic:
        return print_ast(doc)
    # the same text exactly for the same tree
    made = s.__dict__.setdefault('documents', [])
    for text in made:
        if text.doc is doc:
            return text
    text = DocStr('<document %d>' % len(made))
    text.doc = doc
    made.append(text)
    return text


def name(n):
    return ast.NameNode(value=n)


def var(n):
    return ast.VariableNode(name=name(n))


class Enum(str):
    """An enumeration value."""


def literal(v):
    """The literal of a value; nodes stand for themselves."""
    if isinstance(v, ast.Node):
        return v
    if v is None:
        return ast.NullValueNode()
    if isinstance(v, bool):
        return ast.BooleanValueNode(value=v)
    if isinstance(v, int):
        return ast.IntValueNode(value=str(v))
    if isinstance(v, float):
        return ast.FloatValueNode(value=str(v))
    if isinstance(v, Enum):
        return ast.EnumValueNode(value=str(v))
    if isinstance(v, str):
        return ast.StringValueNode(value=v, block=False)
    if isinstance(v, list):
        return ast.ListValueNode(values=[literal(x) for x in v])
    if isinstance(v, dict):
        return ast.ObjectValueNode(fields=[
            ast.ObjectFieldNode(name=name(k), value=literal(x))
            for k, x in v.items()])
    raise TypeError(type(v))


def args(d):
    return [ast.ArgumentNode(name=name(k), value=literal(v))
            for k, v in (d or {}).items()]


def directive(n, cond=None):
    return ast.DirectiveNode(name=name(n), arguments=args(
        {} if cond is None else {'if': cond}))


def selection(items):
    return ast.SelectionSetNode(selections=list(items))


def field(n, items=None, arguments=None, alias=None, directives=()):
    return ast.FieldNode(
        name=name(n), alias=None if alias is None else name(alias),
        arguments=args(arguments), directives=list(directives),
        selection_set=None if items is None else selection(items))


def inline(items, directives=(), on=None):
    return ast.InlineFragmentNode(
        type_condition=None if on is None else named(on),
        directives=list(directives), selection_set=selection(items))


def spread(n, directives=()):
    return ast.FragmentSpreadNode(name=name(n), directives=list(directives))


def named(n):
    return ast.NamedTypeNode(name=name(n))


def fragment(n, items, on='Any'):
    return ast.FragmentDefinitionNode(
        name=name(n), type_condition=named(on), variable_definitions=[],
        directives=[], selection_set=selection(items))


class Missing:
    pass


def variable(n, type_='Int', required=False, default=Missing):
    t = named(type_)
    return ast.VariableDefinitionNode(
        variable=var(n), directives=[],
        type=ast.NonNullTypeNode(type=t) if required else t,
        default_value=None if default is Missing else literal(default))


def operation(items, n=None, kind='query', variables=()):
    return ast.OperationDefinitionNode(
        operation=ast.OperationType(kind), directives=[],
        name=None if n is None else name(n),
        variable_definitions=list(variables),
        selection_set=selection(items))


def document(*definitions):
    return ast.DocumentNode(definitions=list(definitions))
