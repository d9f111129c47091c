"""The network: a transport under the real `requests` library. Nothing leaves the process."""
import io
import socket

import core

import requests
import requests.adapters
import requests.exceptions
from requests.structures import CaseInsensitiveDict


class Network(object):
    """server: dict url -> body (bytes); plan: list of outcomes for the successive requests"""

    def __init__(self):
        self.reset()

    def reset(self):
        self.server, self.plan, self.requests, self.env = {}, [], [], None

    def send(self, request, **kw):
        url = request.url.split('#')[0].lower()      # servers here do not care for the case
        self.requests.append(url)
        fault = self.plan.pop(0) if self.plan else None
        if self.env is not None:
            self.env.log('request', url, fault)
            if fault:
                self.env.fault('net:' + fault)
        if fault == 'connection':
            raise requests.exceptions.ConnectionError('simulated: connection refused')
        if fault == 'timeout':
            raise requests.exceptions.ReadTimeout('simulated: timeout')
        body = self.server.get(url[:-6] if url.endswith('.moved') else url)
        status, headers = (200, {}) if body is not None else (404, {})
        body = body if body is not None else b'{"error": "not found", "$defs": {}}'
        if fault and fault.startswith('status'):
            status, body = int(fault[6:]), b'{"error": "simulated", "$defs": {"A": 1}}'
        elif fault == 'redirect-away':
            status, headers, body = 302, {'location': url + '.missing'}, b''
        elif fault == 'redirect-to' and status == 200:
            status, headers, body = 302, {'location': url + '.moved'}, b''
        elif fault == 'truncated':
            body = body[:max(1, len(body) // 2)]
        elif fault == 'empty':
            body = b''
        elif fault == 'html':
            body = b'<html>login</html>'
        elif fault == 'not-utf8':
            body = b'\xff\xfe\x00' + body
        r = requests.Response()
        r.status_code, r.url, r.request = status, request.url, request
        r.headers = CaseInsensitiveDict({'content-type': 'application/json'}, **headers)
        r.reason = 'simulated'
        r.raw = _Raw(body, cut=fault == 'cut')
        r.encoding = 'utf-8'
        return r


class _Raw(object):
    """body being received; cut: the connection breaks in the middle"""

    def __init__(self, body, cut):
        self._b, self._cut = io.BytesIO(body if not cut else body[:len(body) // 2]), cut
        self.closed = False

    def read(self, n=-1, **kw):
        d = self._b.read(n if n is not None else -1)
        if not d and self._cut:
            raise requests.exceptions.ChunkedEncodingError('simulated: connection broken')
        return d

    def stream(self, n, **kw):
        while True:
            d = self.read(n)
            if not d:
                return
            yield d

    def close(self):
        self.closed = True

    def release_conn(self):
        pass


network = Network()
core.network = network


def install():
    requests.adapters.HTTPAdapter.send = lambda self, request, **kw: network.send(request, **kw)

    def refuse(*a, **kw):
        raise OSError('simulated: no network')
    socket.create_connection = refuse
