"""A loopback HTTP server answering from a dict of paths, one per process."""
import contextlib
import http.server
import os
import threading

_state = {}


class _Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = 'HTTP/1.0'

    def do_GET(self):
        _state['log'].append(self.path)
        body = _state['files'].get(self.path)
        if body is None:
            self.send_response(404)
            self.send_header('Content-Length', '0')
            self.end_headers()
            return
        self.send_response(200)
        if _state.get('type', 'application/json'):
            self.send_header('Content-Type', _state.get('type', 'application/json'))
        self.send_header('Content-Length', str(len(body)))
        self.end_headers()
        self.wfile.write(body)

    def log_message(self, *args):
        pass


def _server():
    if 'server' not in _state:
        for v in ('http_proxy', 'HTTP_PROXY', 'all_proxy', 'ALL_PROXY'):
            os.environ.pop(v, None)
        os.environ['NO_PROXY'] = os.environ['no_proxy'] = '*'
        srv = http.server.ThreadingHTTPServer(('127.0.0.1', 0), _Handler)
        srv.daemon_threads = True
        threading.Thread(target=srv.serve_forever, kwargs={'poll_interval': 0.05}, daemon=True).start()
        _state['server'] = srv
    return _state['server']


@contextlib.contextmanager
def serve(files, type='application/json'):
    srv = _server()
    _state['files'] = dict(files)
    _state['log'] = []
    _state['type'] = type
    try:
        yield f'http://127.0.0.1:{srv.server_address[1]}'
    finally:
        _state['files'] = {}


def log():
    return list(_state.get('log', []))
