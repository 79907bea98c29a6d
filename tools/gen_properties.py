"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=None):
    a = {'files': files, 'mechanism': mechanism}
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


REF = 'MyCapytain/common/reference/_capitains_cts.py'
BASE = 'MyCapytain/common/reference/_base.py'
DTS1 = 'MyCapytain/common/reference/_dts_1.py'
XML = 'MyCapytain/common/utils/xml.py'
LOCAL = 'MyCapytain/resources/texts/local/capitains/cts.py'
TEI = 'MyCapytain/resources/texts/base/tei.py'
PTEXT = 'MyCapytain/resources/prototypes/text.py'
PCTS = 'MyCapytain/resources/prototypes/cts/text.py'
META = 'MyCapytain/common/metadata.py'
PMETA = 'MyCapytain/resources/prototypes/metadata.py'
INV = 'MyCapytain/resources/prototypes/cts/inventory.py'
CCTS = 'MyCapytain/resources/collections/cts.py'
DBASE = 'MyCapytain/resources/collections/dts/_base.py'
DRES = 'MyCapytain/resources/collections/dts/_resolver.py'
RLOC = 'MyCapytain/resolvers/cts/local.py'
RUT = 'MyCapytain/resolvers/utils.py'
RCTS = 'MyCapytain/retrievers/cts5.py'
RDTS = 'MyCapytain/retrievers/dts/__init__.py'
RAPI = 'MyCapytain/resolvers/cts/api.py'
DAPI = 'MyCapytain/resolvers/dts/api_v1.py'
REM = 'MyCapytain/resources/texts/remote/cts.py'
DDOC = 'MyCapytain/resources/texts/remote/dts/_resolver_v1.py'
EXP = 'MyCapytain/common/base.py'
GEN = 'MyCapytain/common/utils/_generic.py'
HTTP = 'MyCapytain/common/utils/_http.py'
GRAPH = 'MyCapytain/common/utils/_graph.py'
JLD = 'MyCapytain/common/utils/_json_ld.py'

exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties_text.py')).read())
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
