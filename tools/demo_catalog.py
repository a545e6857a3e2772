"""Import this first: jschon as it is in the current directory, in a temporary folder with the metaschema documents beside this file
(the repository's own folders for them are empty submodules)."""
import atexit
import os
import shutil
import sys
import tempfile

_here = os.path.dirname(os.path.abspath(__file__))
_d = tempfile.mkdtemp(prefix='demo-')
atexit.register(shutil.rmtree, _d, True)
shutil.copytree(os.path.join(os.getcwd(), 'jschon'), os.path.join(_d, 'jschon'), ignore=shutil.ignore_patterns('__pycache__'))
for _v in os.listdir(os.path.join(_here, 'metaschemas')):
    shutil.copytree(os.path.join(_here, 'metaschemas', _v), os.path.join(_d, 'jschon', 'catalog', 'json-schema-' + _v), dirs_exist_ok=True)
sys.path.insert(0, _d)
sys.dont_write_bytecode = True
import jschon
assert jschon.__file__.startswith(_d), jschon.__file__
META = {'2019': jschon.URI('https://json-schema.org/draft/2019-09/schema'), '2020': jschon.URI('https://json-schema.org/draft/2020-12/schema')}
CAT = jschon.create_catalog('2019-09', '2020-12', name='demo')


def schema(value, dialect='2020', uri='https://example.org/root', **k):
    if uri is not None:
        k['uri'] = jschon.URI(uri)
    return jschon.JSONSchema(value, catalog=CAT, metaschema_uri=META[dialect], **k)


def valid(value, instance, dialect='2020', **k):
    with CAT.cache() as c:
        return schema(value, dialect, cacheid=c, **k).evaluate(jschon.JSON(instance)).valid
