"""shared by the schema harnesses"""
from jschon import JSON, JSONSchema, URI, create_catalog

CAT = None
DIALECT = {'2019': URI('https://json-schema.org/draft/2019-09/schema'), '2020': URI('https://json-schema.org/draft/2020-12/schema'),
           'next': URI('https://json-schema.org/draft/next/schema')}
ROOT = URI('https://example.org/root')
TYPES = ('null', 'boolean', 'number', 'string', 'array', 'object')


def prepare(*versions):
    global CAT
    if CAT is None:
        CAT = create_catalog('2019-09', '2020-12', 'next', name='verif')
    return CAT


class Made:
    """a schema in a cache of its own"""

    def __init__(self, s, value, dialect='2020', uri=ROOT):
        self.cm = CAT.cache()
        self.cacheid = self.cm.__enter__()
        s.cleanups.append(lambda: self.cm.__exit__(None, None, None))
        self.schema = JSONSchema(value, catalog=CAT, cacheid=self.cacheid, metaschema_uri=DIALECT[dialect], uri=uri)


def schema(s, value, dialect='2020', uri=ROOT):
    return Made(s, value, dialect, uri).schema


def evaluate(s, value, instance, dialect='2020'):
    return schema(s, value, dialect).evaluate(JSON(instance))


def valid(s, value, instance, dialect='2020'):
    return evaluate(s, value, instance, dialect).valid


def agree(s, value, x, dialect='2020', msg=None):
    """the verdict of the code is that of the reference; neither schema nor instance is changed"""
    from harness import schref
    from harness.util import clone, strict
    keep, keepx = clone(value), clone(x)
    k, r = s.run(evaluate, s, value, x, dialect)
    s.check(k == 'ok', lambda: f'evaluation raises {type(r).__name__}: {r}')
    v = bool(r.valid)
    want = schref.valid(value, x, dialect)
    s.check(v == want, lambda: f'{"valid" if v else "invalid"}, should be {"valid" if want else "invalid"}' + (f' ({msg})' if msg else ''))
    s.check(strict(value, keep) & strict(x, keepx), 'evaluation changes the schema or the instance')
    s.reach('valid' if v else 'invalid')
    return r
