"""an in-process parallel server: real session, loader, manager, worker configurations and server object, no processes"""
import os
from .base import ensure_slash


class Args(object):
    cmd = 'run'
    argv = []


def with_server(files, num_workers, body, paths=None, stop_on_error=False, tests_loaded=None, cfg=()):
    """body(slash, session, tests, server) inside a started session (call inside forked)"""
    ensure_slash()
    import slash, gossip
    from slash.loader import Loader
    from slash.core.session import Session
    from slash.parallel.parallel_manager import ParallelManager
    from slash.parallel.server import Server
    slash.config.root.parallel.num_workers = num_workers
    slash.config.root.run.stop_on_error = stop_on_error
    for k, v in cfg:
        slash.config.assign_path(k, v)
    for name, src in files.items():
        with open(name, 'w') as f:
            f.write(src)
    with Session() as session:
        session.parallel_manager = ParallelManager(Args())
        if tests_loaded:
            gossip.register(lambda tests: tests_loaded(session, tests), 'slash.tests_loaded', token='vh')
        tests = Loader().get_runnables(list(paths or [os.path.abspath(n) for n in sorted(files)]))
        with session.get_started_context():
            server = session.parallel_manager.server = Server(tests)
            out = body(slash, session, tests, server)
    gossip.unregister_token('vh')
    return out


def start_serving(server, workers, tests, port_states=True):
    """what the workers do before the first test"""
    from slash.parallel.server import ServerStates
    server.state = ServerStates.WAIT_FOR_CLIENTS
    for w in workers:
        server.connect(w, 1000 + int(w))
    coll = client_collection(tests)
    return [server.validate_collection(w, coll) for w in workers]


def client_collection(tests):
    return sorted([[t.__slash__.file_path, t.__slash__.function_name, t.__slash__.variation.dump_variation_dict()] for t in tests])


def wire(result):
    """a worker's result as it arrives over xmlrpc"""
    from xmlrpc.client import Binary
    d = result.serialize() if not isinstance(result, dict) else result
    return {k: (v if isinstance(v, Binary) else Binary(v)) for k, v in d.items()}
