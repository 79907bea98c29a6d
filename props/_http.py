"""A stand-in for the network: records what is asked and answers what the harness says."""
import json
import requests
from urllib.parse import urlsplit, parse_qsl


class Answer:
    """What `requests` gives back"""

    def __init__(self, text='', status=200, headers=None, encoding='utf-8', truth='utf-8', url=None):
        self.body, self.status_code, self.headers = text, status, headers or {}
        self.encoding, self.truth, self.url = encoding, truth, url
        self.ok = status < 400

    @property
    def text(self):
        # decoded with another encoding than that of the server the body is not what was sent
        return self.body if str(self.encoding).lower() == self.truth else 'garbled ' + self.body

    @property
    def content(self):
        return self.text.encode('utf-8')

    def json(self, **k):
        if not isinstance(self.body, str):
            return self.body
        return json.loads(self.text)

    def raise_for_status(self):
        if self.status_code >= 400:
            raise requests.HTTPError('the server answered with an error', response=self)


class Net:
    """replaces requests.Session.request, which requests.get and the like go through"""

    def __init__(self, sx, answer):
        self.calls = []
        net = self

        def request(self, method, url, params=None, headers=None, **kwargs):
            call = Call(method, url, params, headers, kwargs)
            net.calls.append(call)
            return answer(call)
        sx.patch(requests.Session, 'request', request)

    @property
    def last(self):
        return self.calls[-1]


class Call:
    def __init__(self, method, url, params, headers, kwargs):
        self.method = method.upper()
        self.headers = headers or {}
        self.kwargs = kwargs
        self.query = []
        base, q, rest = url.partition('?')
        self.url = base
        if q:
            self.query = [(k, v) for k, v in parse_qsl(rest, keep_blank_values=True)]
        if params:
            for k, vs in (params.items() if isinstance(params, dict) else params):
                if vs is None:
                    continue
                for v in (vs if isinstance(vs, (list, tuple)) else [vs]):
                    if v is not None:
                        self.query.append((str(k), v if isinstance(v, str) else str(v)))
        self.query.sort(key=lambda kv: kv[0])

    def get(self, key, default=None):
        vs = [v for k, v in self.query if k == key]
        return vs[0] if vs else default


def query(**kw):
    """the pairs expected, those that are None omitted"""
    return sorted([(k, v if isinstance(v, str) else str(v)) for k, v in kw.items() if v is not None], key=lambda kv: kv[0])
