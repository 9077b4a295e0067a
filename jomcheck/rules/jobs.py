"""C13: the job server and how it is handed over to jom's own children."""
from .common import *
from .registry import check
from .executor import cur, root_frame

KEY = '_JOMSRVKEY_'
COUNT = '_JOMJOBCOUNT_'
SEM = 'QSystemSemaphore::'


def envkey(t, key):
    """Is the term the key of an environment variable of that name?"""
    t = strip_old(t)
    if isinstance(t, tuple) and t and t[0] == 'obj' and t[2]:
        t = strip_old(t[2][0])
    if isinstance(t, tuple) and t and t[0] == 's':
        return t[1] == key
    return False


def reads_env(t, key):
    t = strip_old(t)
    return callname(t) == 'value' and bool(t[3]) and envkey(t[3][0], key)


class Server(Rule):
    """JobServer::start: a semaphore with N-1 tokens, published in the environment under its key, with N."""

    def n(self, fr):
        f = root_frame(fr).fn
        return ('p', f.key, f.params[0]['n'])

    def call(self, eng, st, fr, node, ci):
        if ci.name == SEM + 'QSystemSemaphore':
            n = self.n(fr)
            key, cnt, mode = (list(ci.args) + [None] * 3)[:3]
            self.rep.check(cnt is not None and lin(strip_old(cnt)) == (n, -1), 'C13.tokens', fr, node, 'the job server has one token less than there are jobs',
                           'the semaphore of the job server is created with %s tokens instead of the number of jobs minus one' % (show(cnt) if cnt is not None else 'no'), st)
            self.rep.check(mode == ('c', 1), 'C13.tokens', fr, node, 'the semaphore is created',
                           'the semaphore is opened instead of created: it may have a stale number of tokens', st)
            self.rep.check(any(resname(x) == 'applicationPid' for x in subterms(key)) or any(resname(x) == 'createUuid' for x in subterms(key)), 'C13.key', fr, node, 'the key differs between processes',
                           'the key of the semaphore does not contain the process id: two builds could share their tokens', st)
            st.flags[('key',)] = key
            st.flags.pop(('noerr',), None)
        elif ci.short in ('insert', 'operator[]') and len(ci.args) == 2:
            for nm in (KEY, COUNT):
                if envkey(ci.args[0], nm):
                    self.publish(st, fr, node, nm, ci.args[1], ci.recv, ci.rloc)

    def write(self, eng, st, fr, node, loc, val, op):
        if loc[0] == 'elem' and val is not None:
            for nm in (KEY, COUNT):
                if envkey(loc[2], nm):
                    self.publish(st, fr, node, nm, val, loc[1], loc[1])

    def publish(self, st, fr, node, nm, val, recv, rloc):
        env = [l for l in (recv, rloc) if l is not None and mentions_field(l, 'JobServer::m_environment')]
        if not env:
            return
        if nm == KEY:
            self.rep.check(('key',) in st.flags and strip_old(val) == strip_old(st.flags[('key',)]), 'C13.publish', fr, node, 'the key of the semaphore is published',
                           '%s is published as key of the semaphore, which is %s' % (show(val), show(st.flags.get(('key',), ('c', 0)))), st)
        else:
            v = strip_old(val)
            self.rep.check(callname(v) == 'number' and v[3] and strip_old(v[3][0]) == self.n(fr) or resname(v) in ('setNum', 'arg') and any(strip_old(x) == self.n(fr) for x in v[3:4] and isinstance(v[3], tuple) and v[3] or ()),
                           'C13.publish', fr, node, 'the number of jobs is published',
                           '%s is published as number of jobs' % show(v), st)
        self.rep.check(('noerr',) in st.flags, 'C13.publish', fr, node, 'only a working semaphore is published',
                       'the job server is published although its semaphore may not have been created', st)
        st.flags[('pub', nm)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if resname(x) == 'error' and not v:
            st.flags[('noerr',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        r = st.val(val)
        if r != 0:
            for nm in (KEY, COUNT):
                self.rep.check(('pub', nm) in st.flags, 'C13.publish', fr, node, '%s is published when the server is started' % nm,
                               'the server is reported as started although %s was not put into the environment' % nm, st)
            self.rep.check(r is not None, 'C13.publish', fr, node, 'result of the start', 'the result does not tell whether the server was started', st)


class Client(Rule):
    """JobClient::start: opens the semaphore that the environment names; the helper lives in its own thread."""

    def call(self, eng, st, fr, node, ci):
        if ci.name == SEM + 'QSystemSemaphore':
            key, cnt, mode = (list(ci.args) + [None] * 3)[:3]
            self.rep.check(reads_env(key, KEY), 'C13.open', fr, node, 'the semaphore of the job server is opened',
                           'the semaphore %s is opened instead of the one whose key is in the environment' % show(key), st)
            self.rep.check(mode in (None, ('c', 0)), 'C13.open', fr, node, 'the semaphore is opened, not created',
                           'the client creates the semaphore: the tokens of running jobs are forgotten', st)
            st.flags[('sem',)] = ci.recv
            st.flags.pop(('noerr',), None)
        elif ci.short == 'moveToThread' and resclass(ci.recv) == NS + 'JobClientAcquireHelper':
            st.flags[('moved',)] = 1
        elif ci.name == 'QThread::start':
            st.flags[('thread',)] = 1
        elif ci.short == 'connect' and 'QObject' in ci.name:
            s = repr(ci.args)
            ty = ci.args[-1]
            for what, (sig, slot) in {'req': ('startAcquisition', 'JobClientAcquireHelper::acquire'), 'got': ('acquired', 'onHelperAcquired')}.items():
                if sig in s and slot.split('::')[-1] in s:
                    self.rep.check(ty in (('c', 0), ('c', 2)), 'C13.thread', fr, node, 'the connection between the threads is queued',
                                   'the connection of %s is direct: it runs in the thread of the sender' % sig, st)
                    if ('con', what) in st.flags:
                        self.rep.bad('C13.thread', fr.fn.short, node.line, 'connected once', '%s is connected twice' % sig, st, file=fr.fn.file)
                    st.flags[('con', what)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if resname(x) == 'error' and not v:
            st.flags[('noerr',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret' or st.val(val) == 0:
            return
        for k, msg in ((('noerr',), 'it was not tested that the semaphore could be opened'), (('moved',), 'the helper is not moved to its thread: waiting for a token blocks the whole build'),
                       (('thread',), 'the thread that waits for tokens is not started'), (('con', 'req'), 'requests do not reach the helper'),
                       (('con', 'got'), 'tokens that are acquired are not announced')):
            self.rep.check(k in st.flags, 'C13.open' if k == ('noerr',) else 'C13.thread', fr, node, 'connected to the job server: %s' % (k,),
                           'the client is reported as started although %s' % msg, st)


def resclass(t):
    t = strip_old(t)
    if isinstance(t, tuple) and t and t[0] in ('new', 'obj', 'dflt'):
        return t[1]
    return None


class Acquire(Rule):
    """A token is announced exactly when one was acquired."""

    def after(self, eng, st, fr, node, ci, res):
        if ci.name == SEM + 'acquire':
            st.flags[('asked',)] = res

    def call(self, eng, st, fr, node, ci):
        if ci.signal and ci.has('JobClientAcquireHelper::acquired'):
            r = st.flags.pop(('asked',), None)
            self.rep.check(r is not None and st.truth(r) is True, 'C13.acquired', fr, node, 'a token is announced only when it was acquired',
                           'a token is announced although acquiring it may have failed, or twice', st)

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            r = st.flags.get(('asked',))
            self.rep.check(r is None or st.truth(r) is False, 'C13.acquired', fr, node, 'each token acquired is announced',
                           'a token is acquired but not announced: it is lost', st)


class Mark(Rule):
    """isAcquiring() is true from the request to the announcement of the token."""
    ACQ = 'JobClient::m_isAcquiring'

    def call(self, eng, st, fr, node, ci):
        if not ci.signal:
            if ci.has('JobClientAcquireHelper::acquire') or ci.name == SEM + 'acquire':
                self.rep.bad('C13.thread', fr.fn.short, node.line, 'asynchronous', 'a token is waited for in the thread of the build: jom waits for itself', st, file=fr.fn.file)
            return
        if ci.has('JobClient::startAcquisition'):
            self.rep.check(st.truth(cur(st, fr.this, self.ACQ)) is True, 'C13.mark', fr, node, 'a request is marked before it is sent',
                           'a token is requested, but not marked as being acquired: a second one may be requested', st)
            self.rep.check(('sent',) not in st.flags, 'C13.mark', fr, node, 'one request at a time', 'two tokens are requested at once', st)
            st.flags[('sent',)] = 1
        elif ci.has('JobClient::acquired'):
            self.rep.check(st.truth(cur(st, fr.this, self.ACQ)) is False, 'C13.mark', fr, node, 'the request is over when the token is announced',
                           'a token is announced while its request is still marked: it is not used', st)
            self.rep.check(('told',) not in st.flags, 'C13.mark', fr, node, 'each token is announced once', 'one token is announced twice', st)
            st.flags[('told',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is not None or kind != 'ret':
            return
        nm = fr.fn.name
        if nm.endswith('asyncAcquire'):
            self.rep.check(('sent',) in st.flags, 'C13.mark', fr, node, 'a request is sent', 'a request for a token is dropped: the build waits for ever', st)
        elif nm.endswith('onHelperAcquired'):
            self.rep.check(('told',) in st.flags, 'C13.mark', fr, node, 'a token is announced', 'a token that was acquired is not announced: the build waits for ever', st)


class Release(Rule):
    def call(self, eng, st, fr, node, ci):
        if ci.name == SEM + 'release':
            self.rep.check(('rel',) not in st.flags and (not ci.args or ci.args[0] == ('c', 1)), 'C13.release', fr, node, 'one token is given back',
                           'more than one token is given back', st)
            st.flags[('rel',)] = 1

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            self.rep.check(('rel',) in st.flags, 'C13.release', fr, node, 'a token is given back', 'no token is given back', st)


class Create(Rule):
    """main: a server is started exactly when this is the outermost jom, or /J differs from the inherited number; its
    environment is the one of the build; it lives as long as the build."""
    MAX = 'GlobalOptions::maxNumberOfJobs'

    def after(self, eng, st, fr, node, ci, res):
        if ci.short in ('toInt', 'toUInt', 'toLong') and any(reads_env(l, COUNT) for l in (ci.recv, ci.rloc) if l is not None):
            st.flags[('inh',)] = res
            for a in ci.args:
                if a[0] == 'adr' and a[1][0] == 'loc':
                    st.flags[('okt',)] = st.env.get(('v', a[1][1], a[1][2]), ('c', 1))
        elif ci.has('JobServer::start'):
            self.rep.check(bool(ci.args) and is_field(ci.args[0], self.MAX), 'C13.create', fr, node, 'the server gets the number of jobs',
                           'the job server is started with %s instead of the number of jobs' % (show(ci.args[0]) if ci.args else '?'), st)
            st.flags[('started',)] = res

    def call(self, eng, st, fr, node, ci):
        if ci.has('JobServer::JobServer'):
            st.flags[('env',)] = ci.args[0]
            st.flags[('srv',)] = ci.recv if ci.recv is not None else ('c', 1)
        elif ci.short == 'delete' and resclass(ci.recv) == NS + 'JobServer':
            st.flags[('gone',)] = 1
        elif ci.has('TargetExecutor::TargetExecutor'):
            self.decide(st, fr, node, ci)
        elif ci.has('TargetExecutor::apply') or ci.short == 'exec' and 'Application' in ci.name:
            self.rep.check(('gone',) not in st.flags, 'C13.live', fr, node, 'the job server lives as long as the build',
                           'the job server is destroyed before the build: its semaphore is gone', st)
            if ci.short == 'exec':
                return []
        return None

    def dtor(self, eng, st, fr, node, var):
        v = st.env.get(('v', fr.id, var['id']))
        s = ('srv',) in st.flags and st.flags[('srv',)]
        if v is not None and s and (strip_old(v) == strip_old(s) and v[0] != 'new' or
                                    isinstance(v, tuple) and v[0] == 'obj' and any(strip_old(a) == strip_old(s) for a in v[2]) and 'Pointer' in v[1] + '' or
                                    v[0] == 'obj' and v[1] == NS + 'JobServer'):
            st.flags[('gone',)] = 1

    def branch(self, eng, st, fr, node, t, truth):
        x, v = truths(t, truth)
        if resname(x) == 'isSubJOM':
            st.flags[('sub',)] = v
        elif is_field(x, 'GlobalOptions::isMaxNumberOfJobsSet'):
            st.flags[('set',)] = v
        elif x[0] == 'op' and x[1] == '==' and len(x) == 4:
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                if is_field(a, self.MAX):
                    if is_field(b, self.MAX) and self.nothing(st) or ('inh',) in st.flags and strip_old(b) == strip_old(st.flags[('inh',)]):
                        st.flags[('diff',)] = not v
        elif x[0] == 'size' and reads_env(x[1], COUNT) and not v or callname(x) in ('isEmpty', 'isNull') and reads_env(x[2], COUNT) and v or callname(x) == 'contains' and any(envkey(a, COUNT) for a in x[3]) and not v:
            st.flags[('none',)] = 1

    def nothing(self, st):
        """Is there no inherited number of jobs on this path?"""
        if ('none',) in st.flags:
            return True
        if ('inh',) not in st.flags:
            return False
        if st.truth(st.flags.get(('okt',), ('c', 1))) is False:
            return True
        vs = st.vs(st.flags[('inh',)])
        return vs != TOP and vs[1] is not None and vs[1] <= 0

    def decide(self, st, fr, node, ci):
        f = st.flags
        sub, sett, diff = f.get(('sub',)), f.get(('set',)), f.get(('diff',))
        own = sub is False or sett is True and diff is True
        share = sub is True and (sett is False or diff is False)
        if ('started',) in f:
            self.rep.check(own, 'C13.create', fr, node, 'a sub-jom shares the job server unless told otherwise by /J',
                           'a new job server is started although the one of the calling jom should be shared: more jobs than allowed can run', st)
            self.rep.check(st.truth(f[('started',)]) is True, 'C13.create', fr, node, 'nothing is built without a job server',
                           'the build starts although the job server may have failed to start', st)
            env, a = f.get(('env',)), ci.args[0]
            if env is not None and env[0] == 'adr':
                env = env[1]
            if env is not None and env[0] == 'loc':
                e = st.env.get(('v', env[1], env[2]))
                ok = e is not None and (e == a or a == env)
            else:
                ok = env is not None and contains(a, env)
            self.rep.check(ok, 'C13.env', fr, node, 'the environment with the key is the one of the build',
                           'the environment in which the job server was published is not the one the commands get: %s' % show(a), st)
        else:
            self.rep.check(share, 'C13.create', fr, node, 'the outermost jom starts a job server',
                           'no job server is started although this is not a sub-jom or /J asks for another number of jobs', st)
            self.rep.check(any(resname(x) == 'environment' for x in subterms(ci.args[0])) or strip_old(ci.args[0])[0] == 'r', 'C13.env', fr, node, 'the inherited environment is passed on',
                           'the commands get %s as environment: the inherited job server is lost' % show(ci.args[0]), st)


class Hand(Rule):
    """The environment goes on to the executors, their processes and the job client."""

    def call(self, eng, st, fr, node, ci):
        if ci.has('CommandExecutor::CommandExecutor'):
            p = self.param(fr)
            self.rep.check(any(strip_old(a) == p or self.mine(st, a, p) for a in ci.args), 'C13.hand', fr, node, 'each executor gets the environment',
                           'an executor is created with another environment than that of the build', st)
        elif ci.has('Process::setEnvironment') and fr.stack()[-1].name.endswith('CommandExecutor::CommandExecutor'):
            self.rep.check(strip_old(ci.args[0]) == self.param(fr), 'C13.hand', fr, node, 'the process of an executor gets the environment',
                           'the process of an executor gets %s as environment' % show(ci.args[0]), st)
            st.flags[('penv',)] = 1
        elif ci.has('JobClient::JobClient'):
            self.rep.check(any(is_field(x, 'TargetExecutor::m_environment') for x in subterms(ci.args[0])), 'C13.hand', fr, node, 'the client looks for the server in the environment of the build',
                           'the job client gets %s as environment' % show(ci.args[0]), st)

    def mine(self, st, a, p):
        return is_field(a, 'TargetExecutor::m_environment') and strip_old(st.heap.get(strip_old(a), a)) == p

    def param(self, fr):
        f = root_frame(fr).fn
        for p in f.params:
            if 'nvironment' in p.get('ty', '') or 'QMap' in p.get('ty', ''):
                return ('p', f.key, p['n'])
        return None

    def exit(self, eng, st, fr, node, kind, val):
        if fr.parent is None and kind == 'ret':
            if fr.fn.name.endswith('CommandExecutor::CommandExecutor'):
                self.rep.check(('penv',) in st.flags, 'C13.hand', fr, node, 'the process has an environment', 'the process of an executor does not get the environment', st)
            elif fr.fn.name.endswith('TargetExecutor::TargetExecutor'):
                self.rep.check(strip_old(cur(st, fr.this, 'TargetExecutor::m_environment')) == self.param(fr), 'C13.hand', fr, node, 'the environment is kept for the job client',
                               'the executor does not keep the environment it is given', st)
            else:
                for fld, own in (('JobServer::m_environment', 'JobServer'), ('JobClient::m_environment', 'JobClient')):
                    if fr.fn.name.endswith('%s::%s' % (own, own)):
                        self.rep.check(strip_old(cur(st, fr.this, fld)) == self.param(fr), 'C13.hand', fr, node, '%s works on the environment it is given' % own,
                                       '%s does not use the environment it is given' % own, st)


@check('C13')
def c13(prog, rep):
    rep.rule('C13.tokens', 'the semaphore of N jobs is created with N-1 tokens')
    rep.rule('C13.key', 'its key is unique to the process')
    rep.rule('C13.publish', 'key and number of jobs are published exactly when the semaphore works')
    rep.rule('C13.open', 'clients open the semaphore named in the environment')
    rep.rule('C13.thread', 'tokens are waited for in a thread of their own, connected in both directions')
    rep.rule('C13.acquired', 'a token is announced exactly when it was acquired')
    rep.rule('C13.mark', 'a request is marked from before it is sent until the token is announced, and every one is passed on once')
    rep.rule('C13.release', 'a release gives back one token')
    rep.rule('C13.create', 'a server is started exactly by the outermost jom or if /J differs from the inherited number')
    rep.rule('C13.env', 'the environment of the server is that of the build')
    rep.rule('C13.hand', 'it is handed on to executors, processes and the job client')
    rep.rule('C13.live', 'the server is not destroyed before the build ended')
    kw = dict(small=0)
    semev = call_events(SEM + 'QSystemSemaphore', SEM + 'acquire', SEM + 'release', 'QObject::connect', 'QObject::moveToThread', 'QThread::start')
    run_roots(prog, rep, Server(prog, rep), ['JobServer::start'], events=either(semev, call_events('QMap::insert'), field_events('JobServer::m_environment')), **kw)
    rep.require('C13.tokens', 1)
    rep.require('C13.publish', 1)
    run_roots(prog, rep, Client(prog, rep), ['JobClient::start'], events=either(semev, field_events('JobClient::m_environment', 'JobClient::m_semaphore')), **kw)
    rep.require('C13.open', 1)
    run_roots(prog, rep, Acquire(prog, rep), ['JobClientAcquireHelper::acquire'], events=semev, **kw)
    run_roots(prog, rep, Mark(prog, rep), ['JobClient::asyncAcquire', 'JobClient::onHelperAcquired'],
              events=either(semev, field_events(Mark.ACQ), call_events('JobClient::startAcquisition', 'JobClient::acquired')), **kw)
    run_roots(prog, rep, Release(prog, rep), ['JobClient::release'], events=semev, **kw)
    run_roots(prog, rep, Create(prog, rep), ['main'], events=either(call_events('JobServer::JobServer', 'JobServer::start', 'TargetExecutor::TargetExecutor', 'Application::isSubJOM'),
                                                               field_events('GlobalOptions::isMaxNumberOfJobsSet', 'GlobalOptions::maxNumberOfJobs'), lambda n: any(x.get('k') == 'str' and x.get('v') == COUNT for e in (n.a, n.b) for x in walk(e))),
              noinline=('Application::isSubJOM', 'JobServer::JobServer', 'JobServer::start', 'TargetExecutor::TargetExecutor', 'TargetExecutor::apply', 'MakefileFactory::apply'), **kw)
    rep.require('C13.create', 2)
    rep.require('C13.env', 1)
    run_roots(prog, rep, Hand(prog, rep), ['TargetExecutor::TargetExecutor', 'CommandExecutor::CommandExecutor', 'JobServer::JobServer', 'JobClient::JobClient', 'TargetExecutor::apply'],
              events=either(call_events('CommandExecutor::CommandExecutor', 'Process::setEnvironment', 'JobClient::JobClient'),
                            field_events('TargetExecutor::m_environment', 'JobServer::m_environment', 'JobClient::m_environment')),
              noinline=('CommandExecutor::CommandExecutor', 'Process::setEnvironment', 'JobClient::JobClient', 'DependencyGraph::build', 'TargetExecutor::startProcesses'))
    rep.require('C13.hand', 3)
