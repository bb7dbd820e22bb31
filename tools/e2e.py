#!/usr/bin/env python3
# e2e.py CLIENT SCRIPT: run a script (see mc/checks/daemon/script.go) on the real client, every host in network, mount
# and process namespaces of its own whose /tmp and /home are empty; print what was observed.
import sys, os, subprocess, hashlib, time, shlex, re, socket, shutil, functools
if os.environ.get('E2E_NS') != '1':
    os.environ['E2E_NS'] = '1'
    os.execvp('unshare', ['unshare', '-Urmn', '--fork', '--kill-child', sys.executable] + sys.argv)
client, script = os.path.abspath(sys.argv[1]), sys.argv[2]
def sh(c, **k): return subprocess.run(c, shell=True, check=True, **k)
@functools.lru_cache(None)
def pattern(seed, n):
    x = (seed * 2654435761 + 12345) & 0xffffffff
    b = bytearray(n)
    for i in range(n):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        b[i] = x >> 24
    return bytes(b)
HOME = '/home/u'
sh('ip link set lo up; ip link add br0 type bridge; ip link set br0 up')
class Host:
    def __init__(s, i):
        s.i, s.name = i, 'ABC'[i]
        s.root = f'/tmp/e2e-{os.getpid()}-{s.name}'
        s.keep = subprocess.Popen(['unshare', '-mnp', '--fork', '--kill-child', 'sh', '-c',
            f'mount -t tmpfs none /home && mkdir -p {HOME}/work && mount -t tmpfs none /tmp && cp /proc/self/fd/3 /tmp/client && chmod +x /tmp/client && echo ok && exec sleep 1000000'],
            stdout=subprocess.PIPE, pass_fds=[3])
        assert s.keep.stdout.readline() == b'ok\n'
        s.pid = int(subprocess.check_output(['pgrep', '-P', str(s.keep.pid)]).split()[0])
        sh(f'ip link add h{i} type veth peer name e{i} && ip link set h{i} master br0 up && ip link set e{i} netns {s.pid}')
        s.do(f'ip link set lo up; ip addr add 10.37.91.{i+1}/24 brd + dev e{i}; ip link set e{i} up; ip route add default dev e{i}')
        s.daemon = None
    def ns(s): return ['nsenter', '-t', str(s.pid), '-m', '-n']
    def do(s, c, **k): return subprocess.run(s.ns() + ['sh', '-c', c], check=True, capture_output=True, **k).stdout
    def start(s, args):
        # --preserve-credentials keeps us root in our user namespace
        return subprocess.Popen(s.ns() + ['sh', '-c', f'cd {HOME}/work && HOME={HOME} exec /tmp/client "$@"', 'sh'] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
    def at(s, p): return f'/proc/{s.pid}/root{p}'
    def write(s, p, d):
        try:
            os.makedirs(os.path.dirname(s.at(p)), exist_ok=True)
            open(s.at(p), 'wb').write(d)
        except (FileExistsError, NotADirectoryError, IsADirectoryError): pass
    def boot(s):
        s.daemon = subprocess.Popen(s.ns() + ['sh', '-c', f'cd / && HOME={HOME} exec /tmp/client -d'], stdout=open(f'/dev/null'), stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        while s.daemon.poll() is None:
            k = socket.socket(socket.AF_UNIX)
            try: k.connect(s.at('/tmp/flu-network.sock')); break
            except OSError: time.sleep(0.002)
            finally: k.close()
    def kill(s):
        if s.daemon: s.daemon.kill(); s.daemon.wait()
    def rm(s, p):
        q = s.at(p)
        assert q.startswith(f'/proc/{s.pid}/root{HOME}/')
        if os.path.isdir(q): shutil.rmtree(q)
        elif os.path.exists(q): os.remove(q)
fd = os.open(client, os.O_RDONLY)
os.dup2(fd, 3)
os.set_inheritable(3, True)
hosts, sums = [], {}
def say(t): sys.stdout.write(re.sub(r':\d{5}->', ':PORT->', t))
def reopen():
    f = os.open(client, os.O_RDONLY)
    os.dup2(f, 3, inheritable=True)
    if f != 3: os.close(f)
for line in open(script).read().split('\n'):
    f = line.split()
    if not f or line.startswith('#'): continue
    say('> ' + line + '\n')
    f = [x[:x.index('$')] + sums.get(x[x.index('$')+1:], '') if '$' in x else x for x in f]
    h = hosts['ABC'.index(f[1])] if len(f) > 1 and f[1] in ('A', 'B', 'C') and f[0] != 'hosts' else None
    if f[0] == 'hosts':
        for i in range(int(f[1])):
            reopen()
            hosts.append(Host(i))
        time.sleep(1)
    elif f[0] == 'file':
        d = pattern(int(f[4]), int(f[3]))
        h.rm(f'{HOME}/work/{f[2]}')
        h.write(f'{HOME}/work/{f[2]}', d)
        sums[f[2]] = hashlib.sha1(d).hexdigest()
    elif f[0] == 'patch':
        p = f'{HOME}/{f[2]}'
        t = f[3].encode()
        if os.path.isfile(h.at(p)):
            d = open(h.at(p), 'rb').read()
            h.write(p, t + d[len(t):])
    elif f[0] == 'text': h.write(f'{HOME}/{f[2]}', f[3].encode())
    elif f[0] == 'rm': h.rm(f'{HOME}/{f[2]}')
    elif f[0] == 'mkdir': subprocess.run(['mkdir', '-p', h.at(f'{HOME}/{f[2]}')], stderr=subprocess.DEVNULL)
    elif f[0] == 'boot': h.boot()
    elif f[0] == 'kill': h.kill()
    elif f[0] == 'reset':
        h.kill()
        for x in os.listdir(h.at(HOME)): h.rm(f'{HOME}/{x}')
        os.makedirs(h.at(HOME + '/work'))
    elif f[0] in ('run', 'sorted'):
        a = ['' if x == "''" else x for x in f[2:]]
        p = h.start(a)
        o = p.communicate()[0].decode()
        if f[0] == 'sorted': o = '\n'.join(sorted(o[:-1].split('\n') if o.endswith('\n') else o.split('\n'))) + '\n'
        say(o + f'= {p.returncode}\n')
    elif f[0] == 'second':
        p = h.start(['-d'])
        p.communicate(timeout=10)
        say(f'= {p.returncode}\n')
    elif f[0] == 'sleep': time.sleep(int(f[1]) / 1000)
    elif f[0] == 'off': h.do(f'ip link set e{h.i} down; ip addr flush dev e{h.i}')
    elif f[0] == 'on': h.do(f'ip addr replace 10.37.91.{h.i+1}/24 brd + dev e{h.i}; ip link set e{h.i} up; ip route replace default dev e{h.i}')
    elif f[0] == 'extra':
        for h in hosts: h.do(f'ip addr flush dev e{h.i}; ip addr add 172.17.0.1/16 dev e{h.i}; ip addr add 10.37.91.{h.i+1}/24 brd + dev e{h.i}; ip route replace default dev e{h.i} src 10.37.91.{h.i+1}')
    elif f[0] == 'alive': say(('true' if h.daemon.poll() is None else 'false') + '\n')
    elif f[0] == 'tree':
        l = []
        for dir, _, names in os.walk(h.at(HOME)):
            for x in names:
                d = open(f'{dir}/{x}', 'rb').read()
                if x.endswith('.json'): d = re.sub(rb'"(Pid|LastTouched)":[0-9]+', rb'"\1":0', d)
                l.append(f'{dir[len(h.at("")):]}/{x} {len(d)} {hashlib.sha1(d).hexdigest()}\n')
        say(''.join(sorted(l)))
    sys.stdout.flush()
for h in hosts:
    if h.daemon: h.daemon.kill()
    h.keep.kill()
