"""Requests through the WSGI entry point, with a controlled clock."""
import content as C


class Web:
    def __init__(self, h, now, mod=None):
        from sx import harness
        self.h = h
        self.clock = harness.Clock([now], advance=True)
        h.set_clock(self.clock)
        self.mod = mod or h.load('dashlivesim.mod_wsgi.mod_dashlivesim')
        self.status = None
        self.headers = None
        self.calls = 0

    def _start(self, status, headers):
        self.calls += 1
        self.status = status
        self.headers = dict(headers)
        self.header_list = list(headers)

    def request(self, url, query=None, rng=None, host='sim.org', https=False, now=None):
        "iterator over the body; status and headers are set once it has been advanced"
        self.status = self.headers = None
        self.calls = 0
        if now is not None:
            self.clock.now = now
        env = {'HTTP_HOST': host, 'REQUEST_URI': url if query is None else url + '?' + query, 'VOD_CONF_DIR': C.CFG,
               'CONTENT_ROOT': C.CONTENT, 'QUERY_STRING': query or '', 'wsgi.url_scheme': 'https' if https else 'http'}
        if rng is not None:
            env['HTTP_RANGE'] = rng
        return iter(self.mod.application(env, self._start))

    def get(self, url, **kw):
        "(status code, body) of a complete reply"
        body = b''
        for part in self.request(url, **kw):
            body = body + part
        return int(self.status[:3]), body
